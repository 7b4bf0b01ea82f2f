------------------------------ MODULE LogView ------------------------------
(***************************************************************************)
(* A view of the last lines of a log, at the bottom of the screen: one     *)
(* line, or expanded to a header and as many as there are, up to some      *)
(* number.  It follows the log (top = 0), or has been scrolled to show     *)
(* lines from top on.                                                      *)
(***************************************************************************)
EXTENDS Integers
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
\* lines that an expanded view may have below its header
Room(lines, h) == Most(1, Least(lines, h - 1))
IsTall(ex, h) == ex /\ h > 1
\* rows for lines
Rows(ex, lines, h) == IF IsTall(ex, h) THEN Room(lines, h) ELSE 1
\* the row of the header, or of the only line
HeadRow(ex, lines, h, n) == IF IsTall(ex, h) THEN h - Least(Room(lines, h), Most(1, n)) ELSE h
\* lines first and last of n to show in k rows
Window(n, k, top) ==
  LET end == Most(1, n - k + 1)
      a == IF top = 0 THEN end ELSE Most(1, Least(top, end)) IN
  <<a, Least(n, a + k - 1)>>
\* tops there may be after scrolling down by d: whether a view that is at the
\* end follows the log is open, as is how far up the first scroll goes
Scrolled(n, k, top, d) ==
  LET a == Window(n, k, top)[1]
      end == Most(1, n - k + 1)
      to == Most(1, Least(a + d, end)) IN
  IF d = 0 THEN {top}
  ELSE IF top # 0
  THEN LET Off(t) == Most(1, Least(t + d, end)) \* top was beyond the end
           ts == {to, Off(top), Off(Least(top, n))} IN
       ts \cup (IF end \in ts THEN {0} ELSE {})
  ELSE IF d > 0 THEN {0}
  ELSE to .. a
=============================================================================
