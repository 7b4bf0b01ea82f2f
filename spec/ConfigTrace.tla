---------------------------- MODULE ConfigTrace ----------------------------
(* Judges recorded executions of configurations: merging, flags, and platforms made with them. *)
EXTENDS Config, TLC, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
\* c: configuration, of the platform at hand if made; on: it is run; in: and entered;
\* f: the log file at hand; logs: of each file, what is logged to it; prof: files that
\* have, at this time, a profile, per kind; wait: what is logged may be written by the next run only
None == [c |-> Empty, made |-> FALSE, on |-> FALSE, in |-> FALSE, f |-> "", logs |-> <<>>, full |-> {}, blank |-> {}, bad |-> FALSE, wait |-> FALSE]
Init == l = 1 /\ s = None
Cfg(x) == [k \in DOMAIN Empty |-> x[k]]
Kinds == {"cpu", "trace", "mem"}
Full == "/dev/full" \* can be created, but not written
Creates(c) == {c[k] : k \in {k \in Files : c[k] # ""}} \ {Full}
Starts(c) == c.cpu # Full /\ c.trace # Full
Bad(n) == n \in {"no/c", "no/l", "no/t", "no/m", "no/e"}
Asked(c) == {k \in Kinds : c[k] # "" /\ c[k] # Full}
Logs(n) == IF \E i \in 1 .. Len(s.logs) : s.logs[i][1] = n THEN (CHOOSE i \in 1 .. Len(s.logs) : s.logs[i][1] = n) ELSE 0
SetLog(n, q) == IF Logs(n) = 0 THEN Append(s.logs, <<n, q>>) ELSE [s.logs EXCEPT ![Logs(n)] = <<n, q>>]
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = None
       [] e.ev = "merge" -> e.bad = "" /\ Cfg(e.c) = Merge(Cfg(e.a), Cfg(e.b)) /\ s' = s
       [] e.ev = "flags" -> \* values that are no booleans, and unknown flags, are errors
          /\ e.bad = "" /\ (e.err = "") = e.ok /\ (e.ok => Cfg(e.c) = Parsed(Cfg(e.init), e.args)) /\ s' = s
       [] e.ev = "new" ->
          LET given == Merged([i \in 1 .. Len(e.opts) |-> Cfg(e.opts[i])])
              c == IF e.parse THEN Merge(Parsed(Empty, e.args), given) ELSE given
              fails == \E n \in Creates(c) : Bad(n) IN
          /\ e.bad = "" /\ (e.err # "") = fails
          /\ IF fails THEN s' = [s EXCEPT !.made = FALSE, !.bad = TRUE]
             ELSE /\ Cfg(e.c) = c /\ e.timing = Measures(c) /\ e.logt = c.logt
                  /\ \A n \in Creates(c) : \E i \in 1 .. Len(e.made) : e.made[i] = n
                  /\ s' = [s EXCEPT !.c = c, !.made = TRUE, !.f = IF c.log # "" THEN c.log ELSE @, !.wait = @ \/ c.log # "",
                                    !.bad = @ \/ (s.wait /\ c.log # "" /\ c.log = s.f), \* a file that is still to be written is overwritten: open
                                    !.logs = IF c.log # "" THEN SetLog(c.log, <<>>) ELSE @,
                                    !.full = @ \ Creates(c), !.blank = {c[k] : k \in Asked(c)}]
       [] e.ev = "log" -> s' = IF s.f = "" THEN s ELSE [s EXCEPT !.logs = SetLog(s.f, Append(s.logs[Logs(s.f)][2], e.id))]
       [] e.ev = "run" -> s.made /\ ~s.on /\ s' = [s EXCEPT !.on = TRUE]
       [] e.ev = "in" -> \* entered: what was asked for runs
          /\ s.on /\ ~s.in /\ Starts(s.c) /\ e.cpu = (s.c.cpu # "") /\ e.trace = (s.c.trace # "")
          /\ s' = [s EXCEPT !.in = TRUE, !.full = @ \ {s.c[k] : k \in Asked(s.c)}, !.blank = {}]
       [] e.ev = "ran" -> \* left: it does not any more, and profiles are there
          /\ s.on /\ ~e.cpu /\ ~e.trace /\ s.in = Starts(s.c)
          /\ IF ~s.in THEN e.bad = "" /\ e.err # ""
             ELSE e.bad = e.panic /\ (e.bad = "" => IF e.want = "" /\ s.c.mem = Full THEN e.err # "" ELSE e.err = e.want)
          /\ s' = [s EXCEPT !.on = FALSE, !.in = FALSE, !.wait = @ /\ ~s.in, !.blank = {},
                            !.full = IF s.in THEN @ \cup {s.c[k] : k \in Asked(s.c)} ELSE @ \ {s.c[k] : k \in Asked(s.c)}]
       [] e.ev = "busy" -> \* another one profiles: fails to, if asked for, and nothing is left running
          LET fails == s.c[e.which] # "" \/ ~Starts(s.c) IN
          /\ s.made /\ e.bad = "" /\ (e.err # "") = (fails \/ s.c.mem = Full) /\ e.ran = ~fails /\ ~e.cpu /\ ~e.trace
          /\ s' = [s EXCEPT !.blank = {}, !.full = IF fails THEN @ \ {s.c[k] : k \in Asked(s.c)} ELSE @ \cup {s.c[k] : k \in Asked(s.c)}]
       [] e.ev = "scrub" -> s' = [s EXCEPT !.full = {}, !.blank = {}]
       [] e.ev = "files" ->
          /\ ~s.on
          /\ \A i \in 1 .. Len(e.files) :
               LET n == e.files[i][1] k == e.files[i][2] IN
               /\ n \in s.full => k = (CASE n = s.c.cpu -> "gz" [] n = s.c.trace -> "trace" [] n = s.c.mem -> "heap" [] OTHER -> k)
               /\ n \in s.blank => k = "empty"
          /\ \A n \in s.full : \E i \in 1 .. Len(e.files) : e.files[i][1] = n
          /\ \A i \in 1 .. Len(e.logs) : LET j == Logs(e.logs[i][1]) IN
               j # 0 /\ (~s.bad => IF s.wait /\ e.logs[i][1] = s.f THEN IsPrefix(e.logs[i][2], s.logs[j][2])
                                     ELSE e.logs[i][2] = s.logs[j][2])
          /\ s' = s
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
