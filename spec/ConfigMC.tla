------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* A process in which platforms are made with configurations, entered and  *)
(* left, and things logged.  Profilers run while one is entered; what they *)
(* got is in the file when it is left; the log goes to the last file that  *)
(* was set.                                                                *)
(***************************************************************************)
EXTENDS Config, TLC, Json, FiniteSets
CONSTANTS Confs, MaxOps, Gen
VARIABLES c, made, on, runs, log, file, prof, hist
vars == <<c, made, on, runs, log, file, prof, hist>>
view == <<c, made, on, runs, log, file, prof, Len(hist)>>
Names == {"", "f"}
All == {[Empty EXCEPT !.log = l, !.cpu = p, !.trace = t, !.mem = m] : l \in Names, p \in Names, t \in Names, m \in Names}
Init == c = Empty /\ made = FALSE /\ on = FALSE /\ runs = {} /\ log = 0 /\ file = "" /\ prof = {} /\ hist = <<>>
Op(v) == Len(hist) < MaxOps /\ hist' = Append(hist, v)
Ask(x) == {k \in {"cpu", "trace", "mem"} : x[k] # ""}
New == /\ ~on /\ \E a \in Confs, b \in Confs :
            /\ c' = Merge(a, b) /\ Op(<<"new", a, b>>)
            /\ file' = IF c'.log # "" THEN c'.log ELSE file
            /\ prof' = prof \ Ask(c')
       /\ made' = TRUE /\ UNCHANGED <<on, runs, log>>
Enter == made /\ ~on /\ on' = TRUE /\ runs' = Ask(c) /\ prof' = prof \ Ask(c) /\ Op(<<"enter">>) /\ UNCHANGED <<c, made, log, file>>
Leave == on /\ on' = FALSE /\ runs' = {} /\ prof' = prof \cup runs /\ Op(<<"leave">>) /\ UNCHANGED <<c, made, log, file>>
Log == log' = (IF file = "" THEN log ELSE log + 1) /\ Op(<<"log">>) /\ UNCHANGED <<c, made, on, runs, file, prof>>
Scrub == ~on /\ prof # {} /\ prof' = {} /\ Op(<<"scrub">>) /\ UNCHANGED <<c, made, on, runs, log, file>>
Next == New \/ Enter \/ Leave \/ Log \/ Scrub
Spec == Init /\ [][Next]_vars
Lasting == ~on => runs = {}
Asked == on => runs = Ask(c)
\* merging keeps, and does not care how it is grouped
Keeps == \A a \in All, b \in All : /\ \A k \in Files : a[k] # "" => Merge(a, b)[k] = a[k]
                                    /\ Merge(a, Empty) = a /\ Merge(Empty, a) = a /\ Merge(a, a) = a
                                    /\ \A d \in Confs : Merge(a, Merge(b, d)) = Merge(Merge(a, b), d)
ASSUME Keeps
C1 == [Empty EXCEPT !.log = "l1", !.mem = "m1"]
C2 == [Empty EXCEPT !.cpu = "c1", !.logt = TRUE]
C3 == [Empty EXCEPT !.trace = "t1", !.log = "l2", !.timing = TRUE]
Some == {Empty, C1, C2, C3}
Emitted == (Gen /\ Len(hist') = MaxOps) => PrintT("@@" \o ToJson(hist'))
=============================================================================
