------------------------------ MODULE EventsMC ------------------------------
(***************************************************************************)
(* Histories of arriving events and queries; no event may be counted twice *)
(* by queries that strike what they count.                                 *)
(***************************************************************************)
EXTENDS Events, TLC, Json
CONSTANTS MaxEv, MaxOps, Gen
VARIABLES q, log, counted
vars == <<q, log, counted>>
Boxes == {<<1, 1, 3, 3>>, <<2, 1, 4, 2>>, <<2, 2, 2, 2>>}
\* mouse reports: press left at 1,1; release there; drag; wheel up, down in corners; also keys
Outs == {<<97>>, <<98>>, <<27>>, <<CsiId(65)>>, <<CsiId(67), 51>>,
         <<CsiId(77), 60, 48, 59, 49, 59, 49>>, <<CsiId(109), 60, 48, 59, 49, 59, 49>>,
         <<CsiId(77), 60, 51, 50, 59, 50, 59, 49>>, <<CsiId(77), 60, 54, 53, 59, 51, 59, 49>>}
Init == q = <<>> /\ log = <<>> /\ counted = <<>>
Arrive == /\ Len(q) < MaxEv
          /\ \E o \in Outs : q' = Add(q, <<o>>) /\ log' = Append(log, [op |-> "add", o |-> o]) /\ counted' = Append(counted, 0)
Struck(t) == [i \in 1 .. Len(q) |-> counted[i] + IF q[i].k # 0 /\ t[i].k = 0 THEN 1 ELSE 0]
Ask(r, v) == q' = r[2] /\ log' = Append(log, v) /\ counted' = Struck(r[2])
Query ==
  \/ Ask(Empty(q), [op |-> "empty"])
  \/ \E r \in {27, 97} : Ask(Terminal(q, r), [op |-> "term", r |-> r])
  \/ \E rs \in {{97}, {97, 98}} : Ask(CountRune(q, rs), [op |-> "count", rs |-> rs])
  \/ \E b \in Boxes : \/ Ask(PressesIn(q, b, 1), [op |-> "press", box |-> b, btn |-> 1])
                      \/ Ask(PressOutside(q, b), [op |-> "outside", box |-> b])
                      \/ Ask(Scroll(q, b), [op |-> "scroll", box |-> b])
  \/ Ask(Moves(q), [op |-> "moves"])
  \/ \E c \in BOOLEAN : Ask(LastMouse(q, c), [op |-> "last", consume |-> c])
Ops == Cardinality({i \in 1 .. Len(log) : log[i].op # "add"})
\* generated histories let everything arrive first
Next == (Arrive \/ (Ops < MaxOps /\ (Gen => Len(q) = MaxEv) /\ Query))
Spec == Init /\ [][Next]_vars
View == <<q, counted, Ops>>
Once == \A i \in 1 .. Len(q) : counted[i] = IF q[i].k = 0 THEN 1 ELSE 0
\* queries agree with each other
Agree ==
  /\ Empty(q)[1] => \A b \in Boxes : ~PressOutside(q, b)[1] /\ Scroll(q, b)[1] = 0 /\ LastMouse(q, FALSE)[1] = <<>>
  /\ Terminal(q, 97)[1] <=> CountRune(q, {97})[1] > 0
  /\ CountRune(q, {97, 98})[1] = CountRune(q, {97})[1] + CountRune(q, {98})[1]
  /\ \A b \in Boxes : PressesIn(PressesIn(q, b, 1)[2], b, 1)[1] = 0 /\ Scroll(Scroll(q, b)[2], b)[1] = 0
  /\ Moves(Moves(q)[2])[1] = <<0, 0>>
  /\ (LastMouse(LastMouse(q, TRUE)[2], FALSE)[1] = <<>>)
Emitted == (Gen /\ Len(log') = MaxEv + MaxOps) => PrintT("@@" \o ToJson([log |-> log']))
=============================================================================
