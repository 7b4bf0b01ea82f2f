------------------------------ MODULE Escape ------------------------------
(***************************************************************************)
(* Encoding of control functions: an identifier and its argument to bytes. *)
(* The inverse of Decoder.tla.                                             *)
(***************************************************************************)
EXTENDS Decoder

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Params(_)
Params(ns) == IF ns = <<>> THEN <<>>
              ELSE IF Len(ns) = 1 THEN Digits(ns[1])
              ELSE Digits(ns[1]) \o <<59>> \o Params(Tail(ns))

IsC0(id) == id > 0 /\ id < 32
IsC1(id) == id >= 128 /\ id < 160
IsCharset(id) == id >= EscId(32) /\ id < EscId(48)
IsEsc(id) == id >= EscId(48) /\ id < EscId(127)
IsCsi(id) == id >= CsiId(64) /\ id < CsiId(127)

Encode(id, arg) ==
  CASE IsC0(id) -> <<id>> \o arg
    [] IsC1(id) -> <<ESCB, id - 64>> \o arg
    [] IsCharset(id) -> <<ESCB, id - 61184>> \o arg
    [] IsEsc(id) -> <<ESCB>> \o arg \o <<id - 61184>>
    [] IsCsi(id) -> <<ESCB, 91>> \o arg \o <<id - 61312>>

\* what bytes have to decode to, to be an encoding
Decodes(bs, id, arg) ==
  LET r == Run(Ground, bs) IN
  CASE IsC0(id) -> r.m = Ground /\ r.o = <<<<id>>>> \o Singles(arg)
    [] id = 155 -> r.m = [Ground EXCEPT !.st = "c"] /\ r.o = <<>>
    [] id \in {144, 157, 158, 159} -> r.m = [Ground EXCEPT !.st = "s", !.k = id] /\ r.o = <<>>
    [] OTHER -> r.m = Ground /\ r.o = <<<<id>> \o arg>>

\* a sequence under construction
Arg(q) == q.bs \o Params(q.ns)

\* signed decimal at the start of bytes, after at most one semicolon:
\* <<value, length>>; length 0 if there is none
RECURSIVE Value(_, _, _)
Value(bs, i, v) == IF i <= Len(bs) /\ bs[i] \in 48 .. 57 THEN Value(bs, i + 1, v * 10 + bs[i] - 48) ELSE <<v, i - 1>>
Number(bs) ==
  LET i == IF bs # <<>> /\ bs[1] = 59 THEN 2 ELSE 1
      neg == i <= Len(bs) /\ bs[i] = 45
      j == IF i <= Len(bs) /\ bs[i] \in {43, 45} THEN i + 1 ELSE i
      r == Value(bs, j, 0) IN
  IF r[2] < j THEN <<0, 0>> ELSE <<IF neg THEN -r[1] ELSE r[1], r[2]>>
RECURSIVE Fields(_, _)
Fields(bs, cur) ==
  IF bs = <<>> THEN <<cur>>
  ELSE IF Head(bs) = 59 THEN <<cur>> \o Fields(Tail(bs), <<>>)
  ELSE Fields(Tail(bs), Append(cur, Head(bs)))
AllDigits(f) == f # <<>> /\ \A i \in 1 .. Len(f) : f[i] \in 48 .. 57

\* a mouse report: "not" one, "bad", "ok" with state s and point x, y, or "any" of these
MouseOf(id, arg) ==
  IF id \notin {CsiId(77), CsiId(109)} \/ arg = <<>> \/ arg[1] # 60 THEN [is |-> "not", s |-> 0, x |-> 0, y |-> 0]
  ELSE LET fs == Fields(Tail(arg), <<>>)
           small == \A i \in 1 .. Len(fs) : Len(fs[i]) < 9
           R3(is, s, x, y) == [is |-> is, s |-> s, x |-> x, y |-> y] IN
       IF Len(fs) = 3 /\ (\A i \in 1 .. 3 : AllDigits(fs[i])) /\ small
       THEN LET b == Number(fs[1])[1] IN
            IF b > 255 THEN R3("bad", 0, 0, 0)
            ELSE R3("ok", IF id = CsiId(109) /\ b < 128 THEN b + 128 ELSE b, Number(fs[2])[1], Number(fs[3])[1])
       ELSE IF Len(fs) # 3 \/ ~small
               \/ \E i \in 1 .. 3 : \E k \in 1 .. Len(fs[i]) : fs[i][k] \notin (48 .. 57) \cup {43, 45}
       THEN R3("bad", 0, 0, 0) ELSE R3("any", 0, 0, 0)
\* parts of a mouse state
Wheel(s) == (s \div 64) % 2 = 1
Motion(s) == (s \div 32) % 2 = 1
Release(s) == s >= 128
Press(s) == ~Motion(s) /\ ~Release(s)
Button(s) == IF Wheel(s) THEN (s % 4) + 4 ELSE IF s % 4 = 3 THEN 0 ELSE (s % 4) + 1
DigitsIn(bs) == \E i \in 1 .. Len(bs) : bs[i] \in 48 .. 57
=============================================================================
