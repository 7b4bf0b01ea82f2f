----------------------------- MODULE EscapeMC -----------------------------
(***************************************************************************)
(* Sequences are built by adding arguments to copies of earlier ones, in   *)
(* any order; what each encodes decodes to its identifier and argument,    *)
(* and adding to one changes no other.                                     *)
(***************************************************************************)
EXTENDS Escape, TLC, Json

CONSTANTS Ids, ByteArgs, IntArgs, MaxOps, Gen
VARIABLES slots, log
vars == <<slots, log>>

Init == slots = <<>> /\ log = <<>>
More == Len(log) < MaxOps
New(id, bs, ns) ==
  /\ More /\ (IsCsi(id) \/ ns = <<>>) /\ (IsCharset(id) => Len(bs) = 1) /\ (IsEsc(id) => bs = <<>>)
  /\ slots' = Append(slots, [id |-> id, bs |-> bs, ns |-> ns])
  /\ log' = Append(log, [op |-> "new", id |-> id, i |-> 0, bs |-> bs, ns |-> ns])
With(i, bs, ns) ==
  /\ More /\ LET q == slots[i] IN
     /\ IsCsi(q.id) \/ (IsC0(q.id) /\ ns = <<>>)
     /\ slots' = Append(slots, [q EXCEPT !.bs = @ \o bs, !.ns = @ \o ns])
     /\ log' = Append(log, [op |-> "with", id |-> 0, i |-> i, bs |-> bs, ns |-> ns])
Next ==
  \E bs \in ByteArgs, ns \in IntArgs :
    \/ \E id \in Ids : slots = <<>> /\ New(id, bs, ns)
    \/ \E i \in 1 .. Len(slots) : (bs # <<>> \/ ns # <<>>) /\ With(i, bs, ns)
Spec == Init /\ [][Next]_vars

Inverse == \A i \in 1 .. Len(slots) : Decodes(Encode(slots[i].id, Arg(slots[i])), slots[i].id, Arg(slots[i]))
Numbers == \A n \in {0, 9, 10, 99999999} : Number(Digits(n)) = <<n, Len(Digits(n))>>
\* complete histories are emitted
Emitted == (Gen /\ Len(log') = MaxOps) => PrintT("@@" \o ToJson(log'))

SmallIds == {7, CsiId(65), EscId(40), EscId(99), CsiId(126)}
SmallBytes == {<<>>, <<63>>, <<60, 61>>}
SmallInts == {<<>>, <<7>>, <<10, 0>>, <<1, 23, 456, 7>>}
GenIds == {7, CsiId(72)}
GenBytes == {<<>>, <<63>>, <<60, 61, 62>>}
GenInts == {<<>>, <<7>>, <<12, 345>>}
=============================================================================
