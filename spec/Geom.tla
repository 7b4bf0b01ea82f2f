-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Points <<x, y>> and rectangles <<x0, y0, x1, y1>>, x1 and y1 excluded,  *)
(* as the sets of points that they are.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL GMin(a, b) == IF a < b THEN a ELSE b
LOCAL GMax(a, b) == IF a > b THEN a ELSE b

PtIn(p, r) == r[1] <= p[1] /\ p[1] < r[3] /\ r[2] <= p[2] /\ p[2] < r[4]
Empty(r) == r[1] >= r[3] \/ r[2] >= r[4]
In(r, s) == Empty(r) \/ (s[1] <= r[1] /\ r[3] <= s[3] /\ s[2] <= r[2] /\ r[4] <= s[4])
SamePts(r, s) == r = s \/ (Empty(r) /\ Empty(s))
Meet(r, s) == <<GMax(r[1], s[1]), GMax(r[2], s[2]), GMin(r[3], s[3]), GMin(r[4], s[4])>>
Overlaps(r, s) == ~Empty(r) /\ ~Empty(s) /\ ~Empty(Meet(r, s))
Join(r, s) ==
  IF Empty(r) THEN s ELSE IF Empty(s) THEN r
  ELSE <<GMin(r[1], s[1]), GMin(r[2], s[2]), GMax(r[3], s[3]), GMax(r[4], s[4])>>
Move(r, d) == <<r[1] + d[1], r[2] + d[2], r[3] + d[1], r[4] + d[2]>>
Canon(r) == <<GMin(r[1], r[3]), GMin(r[2], r[4]), GMax(r[1], r[3]), GMax(r[2], r[4])>>
\* a canonical rectangle, less n on every side
IsInset(r, n, out) ==
  IF r[3] - r[1] >= 2 * n /\ r[4] - r[2] >= 2 * n
  THEN out = <<r[1] + n, r[2] + n, r[3] - n, r[4] - n>>
  ELSE Empty(out) /\ out = Canon(out) /\ In(<<out[1], out[2], out[1] + 1, out[2] + 1>>, <<r[1], r[2], r[3] + 1, r[4] + 1>>)
=============================================================================
