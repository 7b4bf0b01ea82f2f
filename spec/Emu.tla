-------------------------------- MODULE Emu --------------------------------
(***************************************************************************)
(* The terminal emulation behind the virtual screen, as it is documented:  *)
(* a function over decoded outs <<id, arg...>> (see Decoder.tla).          *)
(*                                                                         *)
(* It differs from Terminal.tla on purpose: cells start unset (rune 0),    *)
(* erased cells become unset without attributes, and the cursor wraps as   *)
(* soon as the last column was written.  Screen positions count from 1;    *)
(* x = y = 0 is no position yet.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Sgr

UNSET == <<0, 0, -1, -1>>

NewEmu(w, h) == [w |-> w, h |-> h, c |-> [i \in 1 .. w * h |-> UNSET],
                 x |-> 0, y |-> 0, a |-> AttrZero, v |-> FALSE]

LOCAL Between(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
EmuTo(s, x, y) == [s EXCEPT !.x = Between(x, 1, s.w), !.y = Between(y, 1, s.h)]

\* ids of CSI sequences
LOCAL Id(b) == 61312 + b
IsEscapeId(e) == e >= 61184 /\ e <= 61439

\* runes that print nothing, out of those that are ever used
NotGraphic(e) ==
  \/ e < 32 \/ (e >= 127 /\ e <= 159) \/ e = 173
  \/ e = 8203 \/ e = 65279 \/ (e >= 57344 /\ e <= 63743) \/ e >= 983040

(***************************************************************************)
(* Arguments: bytes, numbers separated by semicolons.  A missing number is *)
(* -1; <<>> has no numbers.                                                *)
(***************************************************************************)
RECURSIVE NumsFrom(_, _, _)
NumsFrom(a, i, cur) ==
  IF i > Len(a) THEN <<cur>>
  ELSE IF a[i] = 59 THEN <<cur>> \o NumsFrom(a, i + 1, -1)
  ELSE NumsFrom(a, i + 1, (IF cur < 0 THEN 0 ELSE cur) * 10 + (a[i] - 48))
Nums(a) == IF a = <<>> THEN <<>> ELSE NumsFrom(a, 1, -1)
Plain(a) == \A i \in 1 .. Len(a) : a[i] \in 48 .. 57 \/ a[i] = 59

Wipe(s, lo, hi) == [s EXCEPT !.c = [i \in 1 .. s.w * s.h |-> IF lo <= i /\ i <= hi THEN UNSET ELSE s.c[i]]]
ScrollUp(s) ==
  LET n == s.w * s.h IN
  [s EXCEPT !.c = [i \in 1 .. n |-> IF i + s.w <= n THEN s.c[i + s.w] ELSE UNSET]]

\* the last line scrolls, unless that is switched off
Feed(s, scrolls) ==
  IF s.y < s.h THEN [s EXCEPT !.y = @ + 1] ELSE IF scrolls THEN ScrollUp(s) ELSE s

Print(s, r, scrolls) ==
  LET i == (s.y - 1) * s.w + s.x
      p == [s EXCEPT !.c[i] = <<r, SansClear(s.a[1]), s.a[2], s.a[3]>>] IN
  IF s.x < s.w THEN [p EXCEPT !.x = @ + 1] ELSE Feed([p EXCEPT !.x = 1], scrolls)

EmuCsi(s, e, a) ==
  LET pos == (s.y - 1) * s.w + s.x
      line == (s.y - 1) * s.w
      ns == Nums(a)
      n == IF ns = <<>> THEN 1 ELSE ns[1]
      k == IF ns = <<>> THEN 0 ELSE ns[1] IN
  IF e \in {Id(104), Id(108)} /\ Len(a) > 1 /\ a[1] = 63
  THEN IF Plain(Tail(a)) /\ 25 \in {Nums(Tail(a))[i] : i \in 1 .. Len(Nums(Tail(a)))}
       THEN [s EXCEPT !.v = (e = Id(104))] ELSE s
  ELSE IF ~Plain(a) THEN s
  ELSE CASE e = Id(65) -> EmuTo(s, s.x, s.y - n)
         [] e = Id(66) -> EmuTo(s, s.x, s.y + n)
         [] e = Id(67) -> EmuTo(s, s.x + n, s.y)
         [] e = Id(68) -> EmuTo(s, s.x - n, s.y)
         [] e = Id(72) -> IF ns = <<>> THEN EmuTo(s, 1, 1) ELSE EmuTo(s, ns[2], ns[1])
         [] e = Id(74) -> CASE k = 0 -> Wipe(s, pos, s.w * s.h) [] k = 1 -> Wipe(s, 1, pos)
                            [] k = 2 -> Wipe(s, 1, s.w * s.h) [] OTHER -> s
         [] e = Id(75) -> CASE k = 0 -> Wipe(s, pos, line + s.w) [] k = 1 -> Wipe(s, line + 1, pos)
                            [] k = 2 -> Wipe(s, line + 1, line + s.w) [] OTHER -> s
         [] e = Id(109) -> [s EXCEPT !.a = ApplySgr(s.a, ns)]
         [] OTHER -> s

EmuOut(s0, o, scrolls) ==
  LET s == IF s0.x = 0 /\ s0.y = 0 THEN [s0 EXCEPT !.x = 1, !.y = 1] ELSE s0
      e == o[1] IN
  IF IsEscapeId(e) THEN EmuCsi(s, e, Tail(o))
  ELSE IF e = 10 THEN Feed(s, scrolls)
  ELSE IF e = 13 THEN [s EXCEPT !.x = 1]
  ELSE IF NotGraphic(e) THEN s
  ELSE Print(s, e, scrolls)

RECURSIVE EmuRun(_, _, _)
EmuRun(s, os, scrolls) == IF os = <<>> THEN s ELSE EmuRun(EmuOut(s, Head(os), scrolls), Tail(os), scrolls)
=============================================================================
