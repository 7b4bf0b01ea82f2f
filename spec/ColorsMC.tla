------------------------------ MODULE ColorsMC ------------------------------
(***************************************************************************)
(* Series of models are composed of models and other series; composing     *)
(* leaves what it is composed of alone, and is associative.                *)
(***************************************************************************)
EXTENDS Colors, TLC, Json
CONSTANTS MaxOps, MaxLen, Gen
VARIABLES defs, log

P8 == [i \in 1 .. 256 |-> RGBBASE + i]
Maps == << [k |-> "map", t |-> <<1, 2, 2, 3>>], [k |-> "map", t |-> <<2, 4, 3, 1>>], [k |-> "map", t |-> <<4, 1, 1, 2, 3, 5>>] >>
Init == defs = [i \in 1 .. 3 |-> <<Maps[i]>>] /\ log = <<>>
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))
\* after the first, something is composed with a series
Compose(is) ==
  /\ log = <<>> \/ \E k \in 1 .. Len(is) : is[k] > 3
  /\ defs' = Append(defs, Cat([k \in 1 .. Len(is) |-> defs[is[k]]]))
  /\ log' = Append(log, [op |-> "compose", is |-> is])
Next == Len(log) < MaxOps /\ \E n \in 2 .. MaxLen : \E is \in [1 .. n -> 1 .. Len(defs)] : Compose(is)
Spec == Init /\ [][Next]_<<defs, log>>

Alone == \A i \in 1 .. 3 : defs[i] = <<Maps[i]>>
Serial ==
  \A i \in 1 .. Len(log) : \A c \in 1 .. 5 :
    LET is == log[i].is
        RECURSIVE Through(_, _)
        Through(k, cs) == IF k > Len(is) THEN cs ELSE Through(k + 1, Series(P8, defs[is[k]], cs)) IN
    Series(P8, defs[i + 3], {c}) = Through(1, {c})
Emitted == (Gen /\ Len(log') = MaxOps) => PrintT("@@" \o ToJson(log'))
=============================================================================
