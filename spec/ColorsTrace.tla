---------------------------- MODULE ColorsTrace ----------------------------
(* Judges recorded conversions of colors. *)
EXTENDS Colors, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p8, defs
vars == <<l, p8, defs>>

RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))

Init == l = 1 /\ p8 = <<>> /\ defs = <<>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset"
     THEN /\ defs' = <<>> /\ p8' = e.p8
          /\ p8 = e.p8 \/ (Len(e.p8) = 256 /\ \A i \in 0 .. 255 : e.p8[i + 1] = Standard(i))
     ELSE /\ e.bad = "" /\ UNCHANGED p8
          /\ CASE e.ev = "def" -> defs' = Append(defs, <<[k |-> e.kind, t |-> e.t]>>)
               [] e.ev = "compose" -> defs' = Append(defs, Cat([k \in 1 .. Len(e.is) |-> IF e.is[k] = 0 THEN <<>> ELSE defs[e.is[k]]]))
               [] e.ev = "convert" -> e.out \in Series(p8, defs[e.i], {e.c}) /\ UNCHANGED defs
               [] e.ev = "index" -> e.out \in Nearest(p8, e.t, e.c) /\ UNCHANGED defs
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
