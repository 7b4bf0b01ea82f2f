-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* Grids of cells, views of parts of them, and drawing one into another.   *)
(*                                                                         *)
(* A base is [w, h, c]: size and cells, row by row, <<rune, flags, fg, bg>>.*)
(* A view is [b, r]: number of its base (0: the zero grid), and rectangle  *)
(* <<x0, y0, x1, y1>> of points from 1, x1 and y1 excluded.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, Sgr
LOCAL GMin(a, b) == IF a < b THEN a ELSE b

ZeroView == [b |-> 0, r |-> <<0, 0, 0, 0>>]
Dx(r) == r[3] - r[1]
Dy(r) == r[4] - r[2]
PtIn(x, y, r) == r[1] <= x /\ x < r[3] /\ r[2] <= y /\ y < r[4]
FullRect(base) == <<1, 1, 1 + base.w, 1 + base.h>>
Full(bs, v) == IF v.b = 0 THEN [b |-> 0, r |-> <<1, 1, 1, 1>>] ELSE [b |-> v.b, r |-> FullRect(bs[v.b])]
IsSub(bs, v) == v.b # 0 /\ bs[v.b].w # 0 /\ (Dx(v.r) # bs[v.b].w \/ Dy(v.r) # bs[v.b].h)

\* the part of a view: Max is clamped, Min has to be within
SubRect(v, r) ==
  IF ~PtIn(r[1], r[2], v.r) THEN ZeroView
  ELSE [b |-> v.b, r |-> <<r[1], r[2], GMin(r[3], v.r[3]), GMin(r[4], v.r[4])>>]
SubAt(v, x, y) == SubRect(v, <<x, y, v.r[3], v.r[4]>>)
SubSize(v, w, h) == SubRect(v, <<v.r[1], v.r[2], v.r[1] + w, v.r[2] + h>>)
\* a size within the base, at most w by h
SubResize(bs, v, w, h) ==
  [v EXCEPT !.r[3] = GMin(v.r[1] + w, bs[v.b].w + 1), !.r[4] = GMin(v.r[2] + h, bs[v.b].h + 1)]

Offset(bs, v, x, y) == (y - 1) * bs[v.b].w + (x - 1)
Cell(bs, v, x, y) == bs[v.b].c[Offset(bs, v, x, y) + 1]

(***************************************************************************)
(* Styles.  Each maps a point, the prior cell, and the cell drawn.         *)
(***************************************************************************)
Style(st, x, y, pc, c) ==
  CASE st.k = "noop" -> c
    [] st.k = "zero" -> IF c[1] = st.r THEN <<0, 0, -1, -1>> ELSE c
    [] st.k = "fill" -> IF c[1] = 0 THEN [c EXCEPT ![1] = st.r] ELSE c
    [] st.k = "default" -> IF c[1] = 0 /\ Tail(c) # AttrZero THEN [c EXCEPT ![1] = st.r] ELSE c
    [] st.k = "attr" -> IF c[1] # 0 THEN <<c[1]>> \o st.a ELSE c
    [] st.k = "runes" -> IF c[1] = 0 THEN [c EXCEPT ![1] = pc[1]] ELSE c
    [] st.k = "bg" -> IF c[4] = -1 THEN [c EXCEPT ![4] = pc[4]] ELSE c
    [] st.k = "fg" -> IF c[2] = 0 /\ c[3] = -1 THEN <<c[1], pc[2], pc[3], c[4]>> ELSE c
    [] st.k = "bgfg" ->
         LET d == IF c[4] = -1 THEN [c EXCEPT ![4] = pc[4]] ELSE c IN
         IF c[2] = 0 /\ c[3] = -1 THEN <<d[1], pc[2], pc[3], d[4]>> ELSE d
    \* functions of the driver
    [] st.k = "pos" -> IF c[1] = 0 THEN c ELSE [c EXCEPT ![1] = 19968 + 64 * y + x]
    [] st.k = "under" -> IF pc[1] # 0 THEN pc ELSE c
RECURSIVE StyleAll(_, _, _, _, _)
StyleAll(sts, x, y, pc, c) ==
  IF sts = <<>> THEN c ELSE StyleAll(Tail(sts), x, y, pc, Style(Head(sts), x, y, pc, c))
\* "The default is an opaque copy"
Opaque(sts) == \A i \in 1 .. Len(sts) : sts[i].k = "noop"

(***************************************************************************)
(* Operations on the bases.  Update(bs, v, F) gives the points of a view   *)
(* new content F(x, y).                                                    *)
(***************************************************************************)
Update(bs, v, F(_, _)) ==
  IF v.b = 0 THEN bs
  ELSE LET w == bs[v.b].w IN
       [bs EXCEPT ![v.b].c =
         [i \in 1 .. Len(@) |->
            LET x == ((i - 1) % w) + 1
                y == ((i - 1) \div w) + 1 IN
            IF PtIn(x, y, v.r) THEN F(x, y) ELSE @[i]]]

Clear(bs, v) == Update(bs, v, LAMBDA x, y : <<0, 0, -1, -1>>)
Set(bs, v, x, y, c) == Update(bs, v, LAMBDA px, py : IF px = x /\ py = y THEN c ELSE Cell(bs, v, px, py))

Draw(bs, d, s, sts) ==
  Update(bs, d, LAMBDA x, y :
    LET sx == s.r[1] + (x - d.r[1])
        sy == s.r[2] + (y - d.r[2])
        old == Cell(bs, d, x, y) IN
    IF ~PtIn(sx, sy, s.r) THEN old
    ELSE LET c == Cell(bs, s, sx, sy) IN
         IF Opaque(sts) THEN c
         ELSE LET n == StyleAll(sts, x, y, old, c) IN IF n[1] = 0 THEN old ELSE n)

Equal(bs, v, u, zero) ==
  LET Z(c) == IF c[1] = 0 THEN [c EXCEPT ![1] = zero] ELSE c IN
  /\ Dx(v.r) = Dx(u.r) /\ Dy(v.r) = Dy(u.r)
  /\ \A x \in 0 .. Dx(v.r) - 1 : \A y \in 0 .. Dy(v.r) - 1 :
       Z(Cell(bs, v, v.r[1] + x, v.r[2] + y)) = Z(Cell(bs, u, u.r[1] + x, u.r[2] + y))

Overlap(v, u) == v.b = u.b /\ v.r[1] < u.r[3] /\ u.r[1] < v.r[3] /\ v.r[2] < u.r[4] /\ u.r[2] < v.r[4]
=============================================================================
