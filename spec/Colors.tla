------------------------------- MODULE Colors -------------------------------
(***************************************************************************)
(* Color models: conversions of colors, alone and in series.  A color is   *)
(* 0..255 of the palette, or 2^24 + rgb.  A model is [k, t]: its kind and  *)
(* table; a series is a sequence of models.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

RGBBASE == 16777216
Comps(c) == LET k == c - RGBBASE IN <<k \div 65536, (k \div 256) % 256, k % 256>>

\* p8: definitions of the palette's 256 colors (constant throughout)
Rgb(p8, c) == IF c >= RGBBASE THEN Comps(c) ELSE Comps(p8[c + 1])
SqDiff(a, b) == (a - b) * (a - b)
Dist(x, y) == SqDiff(x[1], y[1]) + SqDiff(x[2], y[2]) + SqDiff(x[3], y[3])
\* indices (from 0) of the colors of t that are closest to c
Nearest(p8, t, c) ==
  LET x == Rgb(p8, c)
      d == [i \in 1 .. Len(t) |-> Dist(x, Rgb(p8, t[i]))] IN
  {i - 1 : i \in {i \in 1 .. Len(t) : \A j \in 1 .. Len(t) : d[i] <= d[j]}}

To24(p8, c) == IF c >= RGBBASE THEN c ELSE p8[c + 1]

\* the possible conversions of c
Conv(p8, m, c) ==
  CASE m.k = "id" -> {c}
    [] m.k = "24" -> {To24(p8, c)}
    [] m.k = "canon" -> LET s == {i \in 1 .. 256 : p8[i] = c} IN IF s = {} THEN {c} ELSE {i - 1 : i \in s}
    [] m.k = "palette" -> IF m.t = <<>> THEN {0} ELSE {m.t[i + 1] : i \in Nearest(p8, m.t, c)}
    [] m.k = "theme" -> IF c >= RGBBASE THEN {c} ELSE IF c < Len(m.t) THEN {m.t[c + 1]} ELSE {c, To24(p8, c)}
    [] m.k = "map" ->
         LET s == {i \in 1 .. (Len(m.t) \div 2) : m.t[2 * i - 1] = c} IN
         IF s = {} THEN {c} ELSE {m.t[2 * (CHOOSE i \in s : \A j \in s : j <= i)]}

RECURSIVE Series(_, _, _)
Series(p8, ms, cs) ==
  IF ms = <<>> THEN cs ELSE Series(p8, Tail(ms), UNION {Conv(p8, Head(ms), c) : c \in cs})
\* the standard palette
Vga == <<0, 8388608, 32768, 8421376, 128, 8388736, 32896, 12632256,
         8421504, 16711680, 65280, 16776960, 255, 16711935, 65535, 16777215>>
Standard(i) ==
  RGBBASE +
  (IF i < 16 THEN Vga[i + 1]
   ELSE IF i < 232
   THEN LET k == i - 16
            v(j) == IF j = 0 THEN 0 ELSE 55 + 40 * j IN
        v(k \div 36) * 65536 + v((k \div 6) % 6) * 256 + v(k % 6)
   ELSE (8 + 10 * (i - 232)) * 65793)

=============================================================================
