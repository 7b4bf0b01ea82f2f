----------------------------- MODULE SignalsMC -----------------------------
(* Two signal values, opened, closed, sent to, and signals raised. *)
EXTENDS Signals, TLC, Json, FiniteSets
CONSTANTS Sigs, MaxOps, Gen
VARIABLES s, was, hist
vars == <<s, was, hist>>
view == <<s, was, Len(hist)>>
Obj == {1, 2}
Sets == SUBSET Sigs
Init == s = [i \in Obj |-> [New EXCEPT !.notify = IF i = 1 THEN {1} ELSE Sigs]] /\ was = <<"none", 0, 0, s>> /\ hist = <<>>
Op(name, i, a) == was' = <<name, i, a, s>> /\ hist' = Append(hist, <<name, i, a>>)
RECURSIVE Bits(_)
Bits(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN 2 ^ x + Bits(S \ {x})
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in Obj, n \in Sets : n # s[i].notify /\ s' = [s EXCEPT ![i].notify = n] /\ Op("notify", i, Bits(n))
           \/ \E i \in Obj : s' = [s EXCEPT ![i] = Open(@)] /\ Op("open", i, 0)
           \/ \E i \in Obj : s' = [s EXCEPT ![i] = Close(@)] /\ Op("close", i, 0)
           \/ \E i \in Obj : s' = [s EXCEPT ![i] = Send(@, 100)] /\ Op("send", i, 0)
           \/ \E i \in Obj : s[i].q # <<>> /\ s' = [s EXCEPT ![i] = Taken(@)] /\ Op("aserr", i, 0)
           \/ \E g \in Sigs : s' = [i \in Obj |-> Raised(s[i], g)] /\ Op("raise", 0, g)
Spec == Init /\ [][Next]_vars
One == \A i \in Obj : Len(s[i].q) <= 1
Closed == \A i \in Obj : ~s[i].open => s[i].reg = {} /\ s[i].q = <<>>
\* a signal does not go by unnoticed, and nothing is taken by another
Noticed == was[1] = "raise" => \A i \in Obj : /\ was[3] \in was[4][i].reg => s[i].q # <<>>
                                              /\ was[3] \notin was[4][i].reg => s[i].q = was[4][i].q
Kept == was[1] \in {"open", "send", "raise", "notify"} => \A i \in Obj : was[4][i].q # <<>> => s[i].q = was[4][i].q
Apart == \A i \in Obj : was[1] # "raise" /\ was[2] # i => s[i] = was[4][i]
Emitted == (Gen /\ Len(hist') = MaxOps) => PrintT("@@" \o ToJson(hist'))
=============================================================================
