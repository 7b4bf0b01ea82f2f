---------------------------- MODULE EventsTrace ----------------------------
(* Judges recorded executions of an Events queue. *)
EXTENDS Events, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q, m  \* m: decoder of the input stream
vars == <<l, q, m>>
Init == l = 1 /\ q = <<>> /\ m = Ground

\* an observed queue; what is left of a struck event does not matter
Shows(t, o) ==
  /\ Len(o) = Len(t)
  /\ \A i \in 1 .. Len(t) :
       LET e == t[i]
           v == o[i] IN
       /\ v.k = e.k
       /\ e.k # 0 => v.id = e.id /\ v.r = e.id /\ (v.arg = e.arg)
       /\ e.k = 3 => v.m = <<e.s, e.x, e.y>>
\* after input whose decoding is open
Adopt(o) == [i \in 1 .. Len(o) |-> [k |-> o[i].k, id |-> o[i].id, arg |-> o[i].arg,
                                    s |-> o[i].m[1], x |-> o[i].m[2], y |-> o[i].m[3]]]
Ok(e, t) == e.bad = "" /\ Shows(t, e.q)
Query(e, r) == q' = r[2] /\ e.res = r[1] /\ UNCHANGED m
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN q' = <<>> /\ m' = Ground
     ELSE
     /\ CASE e.ev = "bytes" -> \* complete
               LET n == Run(Ground, e.b) IN
               /\ q' = (IF n.m = Open THEN Adopt(e.q) ELSE Add(q, n.o \o FlushEOF(n.m).o)) /\ UNCHANGED m
          [] e.ev = "input" -> \* as far as it goes
               LET n == Run(m, e.b)
                   f == FlushEsc(n.m) IN
               /\ q' = (IF n.m = Open THEN Adopt(e.q) ELSE Add(q, n.o \o f.o)) /\ m' = f.m
          [] e.ev = "clear" -> q' = <<>> /\ UNCHANGED m
          [] e.ev = "empty" -> Query(e, Empty(q))
          [] e.ev = "term" -> Query(e, Terminal(q, e.r))
          [] e.ev = "count" -> Query(e, CountRune(q, {e.rs[i] : i \in 1 .. Len(e.rs)}))
          [] e.ev = "press" -> Query(e, PressesIn(q, e.box, e.btn))
          [] e.ev = "outside" -> Query(e, PressOutside(q, e.box))
          [] e.ev = "scroll" -> Query(e, Scroll(q, e.box))
          [] e.ev = "moves" -> Query(e, Moves(q))
          [] e.ev = "last" -> Query(e, LastMouse(q, e.consume))
     /\ Ok(e, q')
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
