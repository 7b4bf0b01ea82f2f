----------------------------- MODULE TerminfoMC -----------------------------
(***************************************************************************)
(* What is written is what is read: all small entries, with strings that   *)
(* may share their ends, and all their prefixes.                           *)
(***************************************************************************)
EXTENDS Terminfo, TLC
CONSTANTS Names, Bools, Nums, Caps, Tables
VARIABLES f, e, cut
vars == <<f, e, cut>>
Pad(n) == [i \in 1 .. n |-> 120]
LEs(q) == [i \in 1 .. 2 * Len(q) |-> IF i % 2 = 1 THEN q[(i + 1) \div 2] % 256 ELSE q[i \div 2] \div 256]
\* caps: offsets
File(n, b, k, caps, tab) ==
  LEs(<<Magic, n, b, k, Len(caps), Len(tab)>>) \o Pad(n + b) \o (IF (n + b) % 2 = 1 THEN <<0>> ELSE <<>>) \o Pad(2 * k) \o LEs(caps) \o tab
Offsets(tab) == {i - 1 : i \in 1 .. Len(tab)} \cup {65534, 65535}
Init == \E n \in Names, b \in Bools, k \in Nums, m \in Caps, tab \in Tables :
          \E caps \in [1 .. m -> Offsets(tab)] :
            /\ e = [caps |-> caps, tab |-> tab] /\ f = File(n, b, k, caps, tab) /\ cut = Len(f)
Next == cut > 0 /\ cut' = cut - 1 /\ UNCHANGED <<f, e>>
Spec == Init /\ [][Next]_vars
All == 0 .. 3
RECURSIVE Upto(_, _)
Upto(t, i) == IF t[i] = 0 THEN <<>> ELSE <<t[i]>> \o Upto(t, i + 1)
Meant(c) == IF c >= Len(e.caps) \/ e.caps[c + 1] >= 65534 THEN <<Absent, <<>>>> ELSE <<"string", Upto(e.tab, e.caps[c + 1] + 1)>>
Back == cut = Len(f) => Reads(f, All) /\ ~Fails(f, All) /\ \A c \in All : Value(f, c) = Meant(c)
\* of a part of a file, what is read is right, or reading it fails
Part == LET p == SubSeq(f, 1, cut) IN
        /\ ~(Fails(p, All) /\ Reads(p, All))
        /\ (cut < Len(f) => ~Reads(p, All))
        /\ (~Fails(p, All) => \A c \in All : Value(p, c) = Meant(c))
T1 == {<<0>>, <<97, 0>>, <<97, 98, 0, 99, 0>>}
=============================================================================
