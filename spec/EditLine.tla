------------------------------ MODULE EditLine ------------------------------
(***************************************************************************)
(* A line editor: text, the number of runes before the caret, and state    *)
(* 0 ready, 1 done, 2 canceled; and how it shows in a box of w columns.    *)
(***************************************************************************)
EXTENDS Integers, Sequences

New == [text |-> <<>>, cur |-> 0, st |-> 0]
Insert(s, r) ==
  [s EXCEPT !.text = SubSeq(@, 1, s.cur) \o <<r>> \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ + 1]
Backspace(s) ==
  IF s.cur = 0 THEN s
  ELSE [s EXCEPT !.text = SubSeq(@, 1, s.cur - 1) \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ - 1]
Move(s, dx) == LET c == s.cur + dx IN [s EXCEPT !.cur = IF c < 0 THEN 0 ELSE IF c > Len(s.text) THEN Len(s.text) ELSE c]
Submit(s) == [s EXCEPT !.st = 1]
Cancel(s) == [s EXCEPT !.st = 2]

\* a view of the text starting after v runes, that shows the caret, without
\* scrolling further than it takes to show the end of the text and the caret
IsView(s, w, v) ==
  LET n == Len(s.text) IN
  /\ v >= 0 /\ v <= s.cur /\ s.cur < v + w
  /\ v = 0 \/ v + w <= n + 1
Shown(s, w, v) == SubSeq(s.text, v + 1, IF v + w < Len(s.text) THEN v + w ELSE Len(s.text))
=============================================================================
