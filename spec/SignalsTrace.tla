---------------------------- MODULE SignalsTrace ----------------------------
(* Judges recorded executions of Signal values, signal errors, and MustRun. *)
EXTENDS Signals, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = <<>>
Set(q) == {q[i] : i \in 1 .. Len(q)}
Seen(e, t) == /\ e.bad = "" /\ e.stale = 0
              /\ \A i \in 1 .. Len(t) : e.open[i] = t[i].open /\ e.len[i] = Len(t[i].q)
              /\ s' = t
At(e, o) == [s EXCEPT ![e.i] = o]
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = [i \in 1 .. e.n |-> [New EXCEPT !.notify = Set(e.notify[i])]]
       [] e.ev = "notify" -> Seen(e, At(e, [s[e.i] EXCEPT !.notify = Set(e.to)]))
       [] e.ev = "open" -> e.err = "" /\ Seen(e, At(e, Open(s[e.i])))
       [] e.ev = "exit" -> e.err = "" /\ Seen(e, s)
       [] e.ev = "close" -> e.err = "" /\ Seen(e, At(e, Close(s[e.i])))
       [] e.ev = "send" -> Seen(e, At(e, Send(s[e.i], e.m)))
       [] e.ev = "raise" -> Seen(e, [i \in 1 .. Len(s) |-> Raised(s[i], e.g)])
       [] e.ev = "take" -> e.got = s[e.i].q /\ Seen(e, At(e, Taken(s[e.i])))
       \* errors of a SignalError: "signal NAME", with code
       [] e.ev = "err" ->
          /\ e.bad = ""
          /\ e.str = e.name /\ e.err = "signal " \o e.name /\ e.same
          /\ e.code = IF e.g < 100 THEN 0 - e.g ELSE 1
          /\ s' = s
       \* a program that ran MustRun
       [] e.ev = "ran" ->
          /\ e.bad = ""
          /\ IF e.kind = "nil" THEN e.returned /\ e.status = 0 /\ e.logged = 0
             ELSE ~e.returned /\ e.status = Status(e.kind, e.n) /\ e.logged > 0
          /\ s' = s
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
