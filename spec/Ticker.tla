------------------------------- MODULE Ticker -------------------------------
(***************************************************************************)
(* A ticker that is entered and exited while somebody waits for it.  Each  *)
(* Enter makes a new generation; ticks of a generation come no sooner than *)
(* it was entered, one at most is kept.  Wait takes hold of the current    *)
(* generation in one step, if Atomic; otherwise of its ticks and of its    *)
(* end in two.                                                             *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANTS MaxGen, Waiters, Atomic
VARIABLES gen,   \* current generation, or 0
          last,  \* generations made
          over,  \* generations exited
          tick,  \* generations with a tick
          pc, held, end, got
vars == <<gen, last, over, tick, pc, held, end, got>>
Init == gen = 0 /\ last = 0 /\ over = {} /\ tick = {}
        /\ pc = [w \in Waiters |-> "idle"] /\ held = [w \in Waiters |-> 0] /\ end = [w \in Waiters |-> 0] /\ got = [w \in Waiters |-> -1]
Enter == last < MaxGen /\ last' = last + 1 /\ gen' = last + 1 /\ over' = (IF gen = 0 THEN over ELSE over \cup {gen})
         /\ tick' = tick \ {gen} /\ UNCHANGED <<pc, held, end, got>>
Exit == gen # 0 /\ gen' = 0 /\ over' = over \cup {gen} /\ UNCHANGED <<last, tick, pc, held, end, got>>
Tick == gen # 0 /\ tick' = tick \cup {gen} /\ UNCHANGED <<gen, last, over, pc, held, end, got>>
Start(w) == /\ pc[w] = "idle" /\ held' = [held EXCEPT ![w] = gen]
            /\ end' = [end EXCEPT ![w] = IF Atomic THEN gen ELSE 0]
            /\ IF gen = 0 THEN pc' = [pc EXCEPT ![w] = "idle"] /\ got' = [got EXCEPT ![w] = 0]
               ELSE pc' = [pc EXCEPT ![w] = IF Atomic THEN "wait" ELSE "half"] /\ got' = [got EXCEPT ![w] = -1]
            /\ UNCHANGED <<gen, last, over, tick>>
Half(w) == pc[w] = "half" /\ end' = [end EXCEPT ![w] = gen] /\ pc' = [pc EXCEPT ![w] = "wait"]
           /\ UNCHANGED <<gen, last, over, tick, held, got>>
Done(w) == /\ pc[w] = "wait" /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ \/ held[w] \in tick /\ got' = [got EXCEPT ![w] = held[w]] /\ tick' = tick \ {held[w]}
              \/ end[w] \in over /\ got' = [got EXCEPT ![w] = 0] /\ tick' = tick
           /\ UNCHANGED <<gen, last, over, held, end>>
Next == Enter \/ Exit \/ Tick \/ \E w \in Waiters : Start(w) \/ Half(w) \/ Done(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Waiters : WF_vars(Half(w)) /\ WF_vars(Done(w))
\* nobody waits for what is over for good
Live == \A w \in Waiters : (pc[w] = "wait" /\ held[w] \in over) ~> pc[w] = "idle"
\* a tick is of what was held, and zero is told of what was over only
Mine == \A w \in Waiters : got[w] > 0 => got[w] = held[w]
=============================================================================
