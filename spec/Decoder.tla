------------------------------ MODULE Decoder ------------------------------
(***************************************************************************)
(* Decoding of a byte stream into runes and ANSI escape sequences, one     *)
(* byte at a time: a machine that emits outs.                              *)
(*                                                                         *)
(* An out is <<id, arg...>>: id is a rune, or U+EF00|b for an ESC, U+EF80|b*)
(* for a CSI sequence, with its argument bytes; the string controls DCS,   *)
(* OSC, PM and APC are identified by their C1 code.                        *)
(*                                                                         *)
(* Machine: st  "g" ground, "e" after ESC, "c" CSI parameters,             *)
(*              "i" CSI intermediates, "s" string                          *)
(*          u   undecided bytes of an UTF-8 encoded rune                   *)
(*          a   argument collected so far                                  *)
(*          k   C1 code that introduced the string; in "e", 1 after DEL    *)
(* State "x" is entered on malformed sequences, whose decoding this         *)
(* specification leaves open; anything may be emitted from there on.       *)
(* Being a function of the machine and the bytes, what is emitted does not *)
(* depend on how the bytes were split into chunks.                         *)
(***************************************************************************)
EXTENDS Utf8

ESCB == 27
BEL == 7
CAN == 24
DEL == 127
EscId(b) == 61184 + b  \* U+EF00
CsiId(b) == 61312 + b  \* U+EF80

Ground == [st |-> "g", u |-> <<>>, a |-> <<>>, k |-> 0]
Singles(bs) == [i \in 1 .. Len(bs) |-> <<bs[i]>>]
Repls(bs) == [i \in 1 .. Len(bs) |-> <<REPL>>]

R(m, o) == [m |-> m, o |-> o]

Open == [Ground EXCEPT !.st = "x"]

\* a decoded C1 control, in either encoding
C1(r) ==
  IF r = 155 THEN R([Ground EXCEPT !.st = "c"], <<>>)
  ELSE IF r \in {144, 157, 158, 159} THEN R([Ground EXCEPT !.st = "s", !.k = r], <<>>)
  ELSE R(Ground, <<<<r>>>>)

GroundByte(b) ==
  IF b = ESCB THEN R([Ground EXCEPT !.st = "e"], <<>>)
  ELSE IF b < 128 THEN R(Ground, <<<<b>>>>)
  ELSE IF Lead(b) THEN R([Ground EXCEPT !.u = <<b>>], <<>>)
  ELSE R(Ground, <<<<REPL>>>>)

StepGround(m, b) ==
  IF m.u = <<>> THEN GroundByte(b)
  ELSE IF Continues(m.u, b)
  THEN LET p == Append(m.u, b) IN
       IF ~Complete(p) THEN R([m EXCEPT !.u = p], <<>>)
       ELSE LET r == RuneOf(p) IN IF r >= 128 /\ r <= 159 THEN C1(r) ELSE R(Ground, <<<<r>>>>)
  ELSE LET n == GroundByte(b) IN R(n.m, Repls(m.u) \o n.o)

\* an escape sequence that was none: its bytes stand for themselves
Unescape(m, b) ==
  LET n == GroundByte(b) IN R(n.m, <<<<ESCB>>>> \o Singles(m.a) \o Repls(m.u) \o n.o)

StepEsc(m, b) ==
  IF m.u # <<>>
  THEN IF Continues(m.u, b)
       THEN LET p == Append(m.u, b) IN
            IF ~Complete(p) THEN R([m EXCEPT !.u = p], <<>>)
            ELSE R([m EXCEPT !.u = <<>>], <<<<RuneOf(p)>>>>) \* passes by the sequence
       ELSE Unescape(m, b)
  ELSE CASE b = CAN -> R(Ground, <<>>)
         [] b < 32 /\ b # CAN -> R(m, <<<<b>>>>)             \* controls pass by the sequence
         [] b = DEL -> R([m EXCEPT !.k = 1], <<>>)
         [] b >= 32 /\ b <= 47 -> R([m EXCEPT !.a = Append(@, b)], <<>>)
         [] b >= 64 /\ b <= 95 /\ m.a = <<>> -> IF m.k = 1 THEN R(Open, <<>>) ELSE C1(b + 64)
         [] b >= 48 /\ b <= 126 /\ ~(b >= 64 /\ b <= 95 /\ m.a = <<>>) ->
              IF Len(m.a) = 1 THEN R(Ground, <<<<EscId(m.a[1]), b>>>>)
              ELSE R(Ground, <<<<EscId(b)>> \o m.a>>)
         [] b >= 128 -> IF b \in {194, 195} THEN R(Open, <<>>) ELSE IF Lead(b) THEN R([m EXCEPT !.u = <<b>>], <<>>) ELSE Unescape(m, b)

StepCsi(m, b) ==
  CASE b >= 64 /\ b <= 126 -> R(Ground, <<<<CsiId(b)>> \o m.a>>)
    [] b >= 48 /\ b <= 63 /\ m.st = "c" -> R([m EXCEPT !.a = Append(@, b)], <<>>)
    [] b >= 32 /\ b <= 47 -> R([m EXCEPT !.a = Append(@, b), !.st = "i"], <<>>)
    [] OTHER -> R(Open, <<>>)

StepStr(m, b) ==
  LET n == Len(m.a) IN
  IF n > 0 /\ ((m.a[n] = ESCB /\ b = 92) \/ (m.a[n] = 194 /\ b = 156))
  THEN R(Ground, <<<<m.k>> \o SubSeq(m.a, 1, n - 1)>>)
  ELSE IF b \in {BEL, CAN} THEN R(Open, <<>>)
  ELSE R([m EXCEPT !.a = Append(@, b)], <<>>)

Step(m, b) ==
  CASE m.st = "g" -> StepGround(m, b)
    [] m.st = "e" -> StepEsc(m, b)
    [] m.st \in {"c", "i"} -> StepCsi(m, b)
    [] m.st = "s" -> StepStr(m, b)
    [] OTHER -> R(m, <<>>)

RECURSIVE RunFrom(_, _, _, _)
RunFrom(m, bs, i, o) ==
  IF i > Len(bs) THEN R(m, o)
  ELSE LET n == Step(m, bs[i]) IN RunFrom(n.m, bs, i + 1, o \o n.o)
Run(m, bs) == RunFrom(m, bs, 1, <<>>)

(***************************************************************************)
(* An interactive reader takes an escape sequence that has not progressed  *)
(* past ESC and intermediates as keys once there is no more input (yet).   *)
(***************************************************************************)
FlushEsc(m) ==
  IF m.st = "e" THEN R([Ground EXCEPT !.u = m.u], <<<<ESCB>>>> \o Singles(m.a)) ELSE R(m, <<>>)

\* At end of input whatever is incomplete stands for itself
RECURSIVE FlushEOF(_)
FlushEOF(m) ==
  CASE m.st = "g" -> R(Ground, Repls(m.u))
    [] m.st = "e" -> R(Ground, <<<<ESCB>>>> \o Singles(m.a) \o Repls(m.u))
    [] m.st \in {"c", "i"} -> R(Ground, <<<<155>>>> \o Singles(m.a))
    [] m.st = "s" ->
         LET n == Run(Ground, m.a) f == FlushEOF(n.m) IN R(Ground, <<<<m.k>>>> \o n.o \o f.o)
    [] OTHER -> R(m, <<>>)

\* Bytes that the machine still holds
Held(m) ==
  CASE m.st = "g" -> m.u
    [] m.st = "e" -> <<ESCB>> \o m.a \o m.u
    [] m.st \in {"c", "i"} -> <<ESCB, 91>> \o m.a
    [] m.st = "s" -> <<ESCB, m.k - 64>> \o m.a
=============================================================================
