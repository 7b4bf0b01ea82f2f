-------------------------------- MODULE Sgr --------------------------------
(***************************************************************************)
(* Select Graphic Rendition: attribute values, their algebra, and the      *)
(* meaning of an SGR control sequence's parameters to a terminal.          *)
(*                                                                         *)
(* An attribute is <<flags, fg, bg>>: flags is a bit set (1 bold, 2 dim,   *)
(* 4 italic, 8 underscore, 16 negative, 32 conceal, 64 explicit clear),    *)
(* colors are -1 (unset), 0..255 (palette) or 2^24 + rgb.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CLEAR == 64
RGBBASE == 16777216
AttrZero == <<0, -1, -1>>

SansClear(f) == IF f >= CLEAR THEN f - CLEAR ELSE f
HasClear(a) == a[1] >= CLEAR

\* Effective attribute state once nothing is pending
Norm(a) == <<SansClear(a[1]), a[2], a[3]>>

\* "Merge an other attr value into a copy of the receiver"
Merge(a, b) ==
  LET base == IF HasClear(b) THEN AttrZero ELSE Norm(a) IN
  << SansClear(base[1]) | SansClear(b[1]),
     IF b[2] >= 0 THEN b[2] ELSE base[2],
     IF b[3] >= 0 THEN b[3] ELSE base[3] >>

(***************************************************************************)
(* The terminal's reading of SGR parameters, one left-to-right pass.       *)
(* Missing parameters (-1) are 0.                                          *)
(***************************************************************************)
P(ps, i) == IF i > Len(ps) THEN 0 ELSE IF ps[i] < 0 THEN 0 ELSE ps[i]

FlagOf(n) == CASE n = 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 4 [] n = 4 -> 8
               [] n = 7 -> 16 [] n = 8 -> 32

ClearBits(f, m) == f - (f & m)

RECURSIVE SgrFrom(_, _, _)
SgrFrom(a, ps, i) ==
  IF i > Len(ps) THEN a
  ELSE LET n == P(ps, i) IN
    CASE n = 0 -> SgrFrom(AttrZero, ps, i + 1)
      [] n \in {1, 2, 3, 4, 7, 8} -> SgrFrom(<<a[1] | FlagOf(n), a[2], a[3]>>, ps, i + 1)
      [] n \in {5, 6, 25} -> SgrFrom(a, ps, i + 1) \* blinks are not represented
      [] n = 22 -> SgrFrom(<<ClearBits(a[1], 3), a[2], a[3]>>, ps, i + 1)
      [] n = 23 -> SgrFrom(<<ClearBits(a[1], 4), a[2], a[3]>>, ps, i + 1)
      [] n = 24 -> SgrFrom(<<ClearBits(a[1], 8), a[2], a[3]>>, ps, i + 1)
      [] n = 27 -> SgrFrom(<<ClearBits(a[1], 16), a[2], a[3]>>, ps, i + 1)
      [] n = 28 -> SgrFrom(<<ClearBits(a[1], 32), a[2], a[3]>>, ps, i + 1)
      [] n \in 30..37 -> SgrFrom(<<a[1], n - 30, a[3]>>, ps, i + 1)
      [] n = 39 -> SgrFrom(<<a[1], -1, a[3]>>, ps, i + 1)
      [] n \in 40..47 -> SgrFrom(<<a[1], a[2], n - 40>>, ps, i + 1)
      [] n = 49 -> SgrFrom(<<a[1], a[2], -1>>, ps, i + 1)
      [] n \in 90..97 -> SgrFrom(<<a[1], n - 90 + 8, a[3]>>, ps, i + 1)
      [] n \in 100..107 -> SgrFrom(<<a[1], a[2], n - 100 + 8>>, ps, i + 1)
      [] n \in {38, 48} ->
           IF P(ps, i + 1) = 5 /\ i + 2 <= Len(ps)
           THEN LET c == P(ps, i + 2) IN
                SgrFrom(IF n = 38 THEN <<a[1], c, a[3]>> ELSE <<a[1], a[2], c>>, ps, i + 3)
           ELSE IF P(ps, i + 1) = 2 /\ i + 4 <= Len(ps)
           THEN LET c == RGBBASE + P(ps, i + 2) * 65536 + P(ps, i + 3) * 256 + P(ps, i + 4) IN
                SgrFrom(IF n = 38 THEN <<a[1], c, a[3]>> ELSE <<a[1], a[2], c>>, ps, i + 5)
           ELSE a
      [] OTHER -> SgrFrom(a, ps, i + 1)

\* The terminal's attribute after CSI ps m
ApplySgr(a, ps) == IF ps = <<>> THEN AttrZero ELSE SgrFrom(a, ps, 1)

=============================================================================
