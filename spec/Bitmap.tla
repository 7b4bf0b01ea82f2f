------------------------------- MODULE Bitmap -------------------------------
(***************************************************************************)
(* Bitmaps drawn as braille.  A base is [w, h, b]: bits (0 or 1) row by    *)
(* row.  A view is [b, r]: its base (0: none) and rectangle <<x0, y0, x1,  *)
(* y1>> of points from 0, x1 and y1 excluded.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
G == INSTANCE Grid

BitIn(v, x, y) == v.b # 0 /\ G!PtIn(x, y, v.r)
Bit(bs, v, x, y) == IF BitIn(v, x, y) THEN bs[v.b].b[y * bs[v.b].w + x + 1] ELSE 0
BitSet(bs, v, x, y, k) ==
  IF BitIn(v, x, y) THEN [bs EXCEPT ![v.b].b[y * bs[v.b].w + x + 1] = k] ELSE bs

\* data in rows of n, the last one filled up
Loaded(n, d) ==
  LET h == IF n = 0 THEN 0 ELSE (Len(d) + n - 1) \div n IN
  [w |-> n, h |-> h, b |-> [i \in 1 .. n * h |-> IF i <= Len(d) THEN d[i] ELSE 0]]
BFull(bs, i) == [b |-> i, r |-> <<0, 0, bs[i].w, bs[i].h>>]

\* the 2 by 4 braille cell of a view at a point: dots 1 2 3 7 | 4 5 6 8
Dots(bs, v, x, y) ==
  Bit(bs, v, x, y) + 2 * Bit(bs, v, x, y + 1) + 4 * Bit(bs, v, x, y + 2)
  + 8 * Bit(bs, v, x + 1, y) + 16 * Bit(bs, v, x + 1, y + 1) + 32 * Bit(bs, v, x + 1, y + 2)
  + 64 * Bit(bs, v, x, y + 3) + 128 * Bit(bs, v, x + 1, y + 3)
Braille(bs, v, x, y) == 10240 + Dots(bs, v, x, y)
RuneW(r) == (G!Dx(r) + 1) \div 2
RuneH(r) == (G!Dy(r) + 3) \div 4

\* a string (of runes) parsed with a pattern of one or two runes
RECURSIVE Bits(_, _)
Bits(set, line) ==
  IF line = <<>> THEN <<>>
  ELSE LET n == Len(set) IN
       <<IF SubSeq(line, 1, n) = set THEN 1 ELSE 0>> \o Bits(set, SubSeq(line, n + 1, Len(line)))
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))
Parses(set, lines) ==
  /\ Len(set) \in {1, 2}
  /\ \A i \in 1 .. Len(lines) : Len(lines[i]) % Len(set) = 0 /\ Len(lines[i]) = Len(lines[1])

\* drawn into grid g = [w, h, c], all of it, styled
DrawInto(g, bs, v, sts) ==
  [g EXCEPT !.c = [i \in 1 .. Len(@) |->
    LET gx == (i - 1) % g.w
        gy == (i - 1) \div g.w
        x == v.r[1] + 2 * gx
        y == v.r[2] + 4 * gy
        old == @[i]
        n == G!StyleAll(sts, gx + 1, gy + 1, old, [old EXCEPT ![1] = Braille(bs, v, x, y)]) IN
    IF ~BitIn(v, x, y) \/ n[1] = 0 THEN old ELSE n]]
\* the cells written: as drawn over nothing, spaces where there is none
Written(bs, v, sts) ==
  LET w == RuneW(v.r) IN
  [i \in 1 .. w * RuneH(v.r) |->
    LET n == G!StyleAll(sts, 1, 1, <<0, 0, -1, -1>>,
               <<Braille(bs, v, v.r[1] + 2 * ((i - 1) % w), v.r[2] + 4 * ((i - 1) \div w)), 0, -1, -1>>) IN
    IF n[1] = 0 THEN <<32, 0, -1, -1>> ELSE n]
=============================================================================
