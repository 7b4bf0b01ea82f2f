---------------------------- MODULE TickerTrace ----------------------------
(* Judges recorded executions of a Ticker, with one waiter; times in microseconds. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
D == 16666
None == 2000000000
\* act: "on", "off", "?" while being changed; from: when it was last entered, at the
\* earliest; n: ticks since then; wait: one waits; zero, tick: may be what it gets; lo: no
\* tick before that; new: the wait started after the ticker was entered; last: tick
New == [act |-> "off", from |-> None, n |-> 0, wait |-> FALSE, zero |-> FALSE, tick |-> FALSE, lo |-> None, new |-> FALSE, last |-> -1]
Init == l = 1 /\ s = New
Least(a, b) == IF a < b THEN a ELSE b
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = New
       [] e.ev = "enter" -> \* being entered; exited before
          s' = [s EXCEPT !.act = "?", !.from = e.u, !.n = 0, !.zero = TRUE, !.tick = TRUE, !.lo = Least(@, e.u + D), !.new = FALSE]
       [] e.ev = "entered" -> e.err = "" /\ s' = [s EXCEPT !.act = "on", !.n = 0]
       [] e.ev = "exit" -> s' = [s EXCEPT !.act = "?", !.zero = TRUE]
       [] e.ev = "exited" -> e.err = "" /\ s' = [s EXCEPT !.act = "off"]
       [] e.ev = "wait" ->
          s' = [s EXCEPT !.wait = TRUE, !.zero = s.act # "on", !.tick = s.act # "off", !.new = s.act = "on",
                         !.lo = IF s.act = "off" THEN None ELSE s.from + D]
       [] e.ev = "race" -> e.n = 0 /\ s' = s
       [] e.ev = "waited" ->
          /\ e.bad = "" /\ s.wait
          /\ IF e.zero THEN s.zero /\ s' = [s EXCEPT !.wait = FALSE]
             ELSE /\ s.tick /\ e.t >= s.lo /\ e.t <= e.u /\ e.t > s.last
                  \* no more ticks than time for them
                  /\ s.new => e.t >= s.from + (s.n + 1) * D
                  /\ s' = [s EXCEPT !.wait = FALSE, !.last = e.t, !.n = IF s.new THEN @ + 1 ELSE @]
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
