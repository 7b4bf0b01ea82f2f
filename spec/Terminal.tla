------------------------------ MODULE Terminal ------------------------------
(***************************************************************************)
(* A conforming (xterm-like) terminal display, as a pure transition        *)
(* function over output tokens.  This is the observer against which        *)
(* everything the library writes is judged.                                *)
(*                                                                         *)
(* Tokens (tuples of integers):                                            *)
(*   <<0, rune>>              one printed character of width 1             *)
(*   <<1, byte>>              C0 control                                   *)
(*   <<2, final, priv, p...>> control sequence; absent parameters are -1   *)
(*   <<3, final>>             escape sequence                              *)
(*   <<9, byte>>              not a valid token                            *)
(*                                                                         *)
(* A cell is <<rune, flags, fg, bg>>; blank is a space without attributes. *)
(* The right margin uses deferred wrap (pend).  With bce set, erasing uses *)
(* the current background color, as xterm and the linux console do.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Sgr

LOCAL TMin(a, b) == IF a < b THEN a ELSE b
LOCAL TMax(a, b) == IF a > b THEN a ELSE b
Clamp(v, lo, hi) == TMax(lo, TMin(v, hi))

BlankCell == <<32, 0, -1, -1>>
CellOf(r, a) == <<r, a[1], a[2], a[3]>>

\* A grid cell as a terminal has to show it: unset runes are spaces
Shown(c) == <<IF c[1] = 0 THEN 32 ELSE c[1], SansClear(c[2]), c[3], c[4]>>

NewTerm(w, h, cells, bce) ==
  [w |-> w, h |-> h, c |-> cells, x |-> 1, y |-> 1, pend |-> FALSE,
   a |-> AttrZero, v |-> TRUE, bce |-> bce, bad |-> FALSE,
   sx |-> 1, sy |-> 1, sa |-> AttrZero]

Blank(t) == IF t.bce THEN <<32, 0, -1, t.a[3]>> ELSE BlankCell
BlankCells(w, h) == [i \in 1 .. w * h |-> BlankCell]

Scroll(t) ==
  LET n == t.w * t.h IN
  [t EXCEPT !.c = [i \in 1 .. n |-> IF i + t.w <= n THEN t.c[i + t.w] ELSE Blank(t)]]

Index(t) == \* line feed
  IF t.y < t.h THEN [t EXCEPT !.y = @ + 1, !.pend = FALSE]
  ELSE [Scroll(t) EXCEPT !.pend = FALSE]

Put(t, r) ==
  LET u == IF t.pend THEN Index([t EXCEPT !.x = 1, !.pend = FALSE]) ELSE t
      i == (u.y - 1) * u.w + u.x IN
  IF u.x = u.w
  THEN [u EXCEPT !.c[i] = CellOf(r, u.a), !.pend = TRUE]
  ELSE [u EXCEPT !.c[i] = CellOf(r, u.a), !.x = @ + 1]

Erase(t, lo, hi) ==
  [t EXCEPT !.c = [i \in 1 .. t.w * t.h |-> IF lo <= i /\ i <= hi THEN Blank(t) ELSE t.c[i]]]

MoveTo(t, x, y) ==
  [t EXCEPT !.x = Clamp(x, 1, t.w), !.y = Clamp(y, 1, t.h), !.pend = FALSE]

\* parameter i of a sequence with default d (0 counts as absent for motions)
Arg(ps, i, d) == IF i > Len(ps) THEN d ELSE IF ps[i] <= 0 THEN d ELSE ps[i]
Arg0(ps, i) == IF i > Len(ps) THEN 0 ELSE IF ps[i] < 0 THEN 0 ELSE ps[i]

SetModes(t, ps, on) ==
  IF \E i \in 1 .. Len(ps) : ps[i] = 25 THEN [t EXCEPT !.v = on] ELSE t

Csi(t, f, priv, ps) ==
  LET pos == (t.y - 1) * t.w + t.x
      n == Arg(ps, 1, 1) IN
  IF priv = 63 /\ f = 104 THEN SetModes(t, ps, TRUE)       \* ?h
  ELSE IF priv = 63 /\ f = 108 THEN SetModes(t, ps, FALSE) \* ?l
  ELSE IF priv # 0 THEN [t EXCEPT !.bad = TRUE]
  ELSE CASE f = 65 -> MoveTo(t, t.x, t.y - n)              \* CUU
         [] f = 66 -> MoveTo(t, t.x, t.y + n)              \* CUD
         [] f = 67 -> MoveTo(t, t.x + n, t.y)              \* CUF
         [] f = 68 -> MoveTo(t, t.x - n, t.y)              \* CUB
         [] f = 69 -> MoveTo(t, 1, t.y + n)                \* CNL
         [] f = 70 -> MoveTo(t, 1, t.y - n)                \* CPL
         [] f = 71 -> MoveTo(t, n, t.y)                    \* CHA
         [] f = 100 -> MoveTo(t, t.x, n)                   \* VPA
         [] f \in {72, 102} -> MoveTo(t, Arg(ps, 2, 1), n) \* CUP, HVP
         [] f = 74 ->                                      \* ED
              CASE Arg0(ps, 1) = 0 -> Erase(t, pos, t.w * t.h)
                [] Arg0(ps, 1) = 1 -> Erase(t, 1, pos)
                [] Arg0(ps, 1) = 2 -> Erase(t, 1, t.w * t.h)
                [] OTHER -> t
         [] f = 75 ->                                      \* EL
              CASE Arg0(ps, 1) = 0 -> Erase(t, pos, t.y * t.w)
                [] Arg0(ps, 1) = 1 -> Erase(t, (t.y - 1) * t.w + 1, pos)
                [] Arg0(ps, 1) = 2 -> Erase(t, (t.y - 1) * t.w + 1, t.y * t.w)
                [] OTHER -> t
         [] f = 88 -> Erase(t, pos, TMin(pos + n - 1, t.y * t.w)) \* ECH
         [] f = 109 -> [t EXCEPT !.a = ApplySgr(t.a, ps)]  \* SGR
         [] OTHER -> [t EXCEPT !.bad = TRUE]

Ctl(t, b) ==
  CASE b = 10 -> Index(t)
    [] b = 13 -> [t EXCEPT !.x = 1, !.pend = FALSE]
    [] b = 8 -> [t EXCEPT !.x = TMax(1, @ - 1), !.pend = FALSE]
    [] b = 0 -> t
    [] OTHER -> [t EXCEPT !.bad = TRUE]

Esc(t, f) ==
  CASE f = 55 -> [t EXCEPT !.sx = t.x, !.sy = t.y, !.sa = t.a]                      \* DECSC
    [] f = 56 -> [t EXCEPT !.x = t.sx, !.y = t.sy, !.a = t.sa, !.pend = FALSE]       \* DECRC
    [] OTHER -> [t EXCEPT !.bad = TRUE]

TermStep(t, tok) ==
  CASE tok[1] = 0 -> Put(t, tok[2])
    [] tok[1] = 1 -> Ctl(t, tok[2])
    [] tok[1] = 2 -> Csi(t, tok[2], tok[3], SubSeq(tok, 4, Len(tok)))
    [] tok[1] = 3 -> Esc(t, tok[2])
    [] OTHER -> [t EXCEPT !.bad = TRUE]

RECURSIVE TermRunFrom(_, _, _)
TermRunFrom(t, toks, i) ==
  IF i > Len(toks) THEN t ELSE TermRunFrom(TermStep(t, toks[i]), toks, i + 1)
TermRun(t, toks) == TermRunFrom(t, toks, 1)

(***************************************************************************)
(* What a user sees: the terminal shows grid g (gw by gh, in its top left  *)
(* corner, everything else blank) and cursor u = [x, y, a, v].             *)
(***************************************************************************)
ShowsGrid(t, gw, gh, g) ==
  /\ gw <= t.w /\ gh <= t.h
  /\ \A i \in 1 .. t.w * t.h :
       LET x == ((i - 1) % t.w) + 1
           y == ((i - 1) \div t.w) + 1 IN
       t.c[i] = IF x <= gw /\ y <= gh THEN Shown(g[(y - 1) * gw + x]) ELSE BlankCell

\* The cursor is drawn at u's point with u's attribute iff u is visible and
\* its point is valid; points beyond the margins show at the margin.
ShowsCursor(t, u) ==
  IF u.v /\ u.x >= 1 /\ u.y >= 1
  THEN /\ t.v
       /\ t.x = Clamp(u.x, 1, t.w) /\ t.y = Clamp(u.y, 1, t.h)
       /\ t.a = Norm(u.a)
  ELSE ~t.v

=============================================================================
