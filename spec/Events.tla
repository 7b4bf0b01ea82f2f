------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* The queue of input events of a frame: what was decoded becomes one      *)
(* event each, in order; queries count events, and strike out what they    *)
(* count.                                                                  *)
(* An event is [k, id, arg, s, x, y]; k is 0 struck, 1 escape sequence,    *)
(* 2 rune, 3 mouse report with state s at x, y.                            *)
(***************************************************************************)
EXTENDS Escape, FiniteSets

NoEvent == [k |-> 0, id |-> 0, arg |-> <<>>, s |-> 0, x |-> 0, y |-> 0]
EventOf(out) ==
  LET id == out[1]
      arg == Tail(out)
      m == MouseOf(id, arg)
      e == [NoEvent EXCEPT !.id = id, !.arg = arg] IN
  IF id < EscId(0) \/ id > EscId(255) THEN [e EXCEPT !.k = 2]
  ELSE IF m.is = "ok" /\ (m.s # 0 \/ (m.x > 0 /\ m.y > 0)) THEN [e EXCEPT !.k = 3, !.s = m.s, !.x = m.x, !.y = m.y]
  ELSE [e EXCEPT !.k = 1]
Add(q, outs) == q \o [i \in 1 .. Len(outs) |-> EventOf(outs[i])]

Where(q, P(_)) == {i \in 1 .. Len(q) : P(q[i])}
Strike(q, is) == [i \in 1 .. Len(q) |-> IF i \in is THEN [q[i] EXCEPT !.k = 0] ELSE q[i]]
Min0(is) == CHOOSE i \in is : \A j \in is : i <= j
Max0(is) == CHOOSE i \in is : \A j \in is : i >= j

IsRune(e, rs) == e.k = 2 /\ e.id \in rs
\* box is <<minx, miny, maxx, maxy>>, exclusive of its maximum
InBox(e, b) == e.k = 3 /\ e.x >= b[1] /\ e.x < b[3] /\ e.y >= b[2] /\ e.y < b[4]

\* each query is <<result, resulting queue>>
Empty(q) == <<Where(q, LAMBDA e : e.k # 0) = {}, q>>
\* the terminal rune and all that follows is struck
Terminal(q, r) ==
  LET is == Where(q, LAMBDA e : IsRune(e, {r})) IN
  IF is = {} THEN <<FALSE, q>> ELSE <<TRUE, Strike(q, Min0(is) .. Len(q))>>
CountRune(q, rs) ==
  LET is == Where(q, LAMBDA e : IsRune(e, rs)) IN <<Cardinality(is), Strike(q, is)>>
PressesIn(q, box, btn) ==
  LET is == Where(q, LAMBDA e : InBox(e, box) /\ Press(e.s) /\ Button(e.s) = btn) IN <<Cardinality(is), Strike(q, is)>>
PressOutside(q, box) ==
  <<Where(q, LAMBDA e : e.k = 3 /\ Press(e.s) /\ ~InBox(e, box)) # {}, q>>
Scroll(q, box) ==
  LET up == Where(q, LAMBDA e : InBox(e, box) /\ Button(e.s) = 4)
      dn == Where(q, LAMBDA e : InBox(e, box) /\ Button(e.s) = 5) IN
  <<Cardinality(dn) - Cardinality(up), Strike(q, up \cup dn)>>
\* cursor keys: number of steps is 1, or the first parameter
IsMove(e) == e.k = 1 /\ e.id \in {CsiId(65), CsiId(66), CsiId(67), CsiId(68)}
MoveOf(e) ==
  LET n == IF DigitsIn(e.arg) THEN Number(e.arg)[1] ELSE 1 IN
  CASE e.id = CsiId(65) -> <<0, -n>> [] e.id = CsiId(66) -> <<0, n>>
    [] e.id = CsiId(67) -> <<n, 0>> [] e.id = CsiId(68) -> <<-n, 0>>
RECURSIVE SumMoves(_, _)
SumMoves(q, i) ==
  IF i > Len(q) THEN <<0, 0>>
  ELSE LET r == SumMoves(q, i + 1) IN
       IF IsMove(q[i]) THEN <<r[1] + MoveOf(q[i])[1], r[2] + MoveOf(q[i])[2]>> ELSE r
Moves(q) == <<SumMoves(q, 1), Strike(q, Where(q, IsMove))>>
LastMouse(q, consume) ==
  LET is == Where(q, LAMBDA e : e.k = 3)
      m == q[Max0(is)] IN
  IF is = {} THEN <<<<>>, q>> ELSE <<<<m.s, m.x, m.y>>, IF consume THEN Strike(q, is) ELSE q>>
=============================================================================
