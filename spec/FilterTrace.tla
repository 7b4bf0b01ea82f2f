---------------------------- MODULE FilterTrace ----------------------------
(* Judges recorded runs of the filter commands. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
C == INSTANCE Colors
P8 == [i \in 1 .. 256 |-> C!Standard(i - 1)]
F == INSTANCE Filter WITH Alphabet <- {}, MaxIn <- 0, Gen <- FALSE, fed <- <<>>, held <- <<>>, out <- <<>>, cuts <- <<>>, eof <- FALSE

Init == l = 1
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     \/ e.ev = "reset"
     \/ /\ e.ev # "reset" /\ e.bad = "" /\ e.rc = 0
        /\ CASE e.ev = "to24bit" -> F!To24BitOK(P8, e.b, e.out) = TRUE
               [] e.ev = "strip" -> F!StripOK(e.b, e.out)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
