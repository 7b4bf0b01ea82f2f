------------------------------- MODULE GeomMC -------------------------------
(* The rectangle algebra is that of the sets of points. *)
EXTENDS Geom, TLC, Json
CONSTANTS Hi, Gen
VARIABLES r, s
C == 1 .. Hi
Rects == {<<a, b, c, d>> : a \in C, b \in C, c \in C, d \in C}
Pts(q) == {p \in C \X C : PtIn(p, q)}
Init == r \in Rects /\ s = <<>>
Next == s = <<>> /\ s' \in Rects /\ UNCHANGED r
Spec == Init /\ [][Next]_<<r, s>>
Sets ==
  s = <<>> \/
  /\ Empty(r) <=> Pts(r) = {}
  /\ In(r, s) <=> (Pts(r) \subseteq Pts(s))
  /\ SamePts(r, s) <=> Pts(r) = Pts(s)
  /\ Pts(Meet(r, s)) = Pts(r) \cap Pts(s)
  /\ Overlaps(r, s) <=> (Pts(r) \cap Pts(s) # {})
  /\ (Pts(r) \cup Pts(s)) \subseteq Pts(Join(r, s))
  /\ In(r, s) => SamePts(Join(r, s), s)
  /\ ~Empty(s) /\ In(r, s) => In(Join(r, r), s)
Least == s # <<>> => \A t \in Rects : In(r, t) /\ In(s, t) => In(Join(r, s), t)
Emitted == Gen => PrintT("@@" \o ToJson([r |-> r, s |-> s']))
=============================================================================
