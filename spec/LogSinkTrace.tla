---------------------------- MODULE LogSinkTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of LogSink.  Data are normal run length      *)
(* lists <<byte, count>>.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  mem,     \* what was logged and not read
  fs,      \* the files: [kind, exp: logged to it, told: an error was reported]
  cur,     \* number of the one in use, 0: none
  running, \* in the background
  nt       \* notified since the last write
vars == <<l, mem, fs, cur, running, nt>>
Init == l = 1 /\ mem = <<>> /\ fs = <<>> /\ cur = 0 /\ running = FALSE /\ nt = FALSE

Cat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF a[Len(a)][1] = b[1][1]
  THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
  ELSE a \o b
Prefix(a, b) ==
  IF a = <<>> THEN TRUE
  ELSE /\ Len(a) <= Len(b)
       /\ \A i \in 1 .. Len(a) - 1 : a[i] = b[i]
       /\ a[Len(a)][1] = b[Len(a)][1] /\ a[Len(a)][2] <= b[Len(a)][2]
RECURSIVE Size(_)
Size(a) == IF a = <<>> THEN 0 ELSE Head(a)[2] + Size(Tail(a))
RECURSIVE Drop(_, _)
Drop(a, n) ==
  IF n = 0 \/ a = <<>> THEN a
  ELSE IF Head(a)[2] <= n THEN Drop(Tail(a), n - Head(a)[2])
  ELSE <<<<Head(a)[1], Head(a)[2] - n>>>> \o Tail(a)
\* ends of lines, the last of which may not be terminated
RECURSIVE Eols(_, _)
Eols(a, p) ==
  IF a = <<>> THEN <<>>
  ELSE LET h == Head(a) IN
       IF h[1] = 10 THEN [i \in 1 .. h[2] |-> p + i - 1] \o Eols(Tail(a), p + h[2])
       ELSE IF Len(a) = 1 THEN <<p + h[2]>>
       ELSE Eols(Tail(a), p + h[2])

Bad(i) == fs[i].kind \in {"ro", "gone", "closed"}
F(i, k) == [fs EXCEPT ![i] = k]
Told(i) == [fs[i] EXCEPT !.told = TRUE]

\* what the files have, after the event
See(e, sync) ==
  /\ Len(e.files) = Len(fs')
  /\ \A i \in 1 .. Len(fs') :
       LET f == fs'[i] g == e.files[i] IN
       /\ ~f.told => Prefix(g.got, f.exp)
       \* no longer in use: complete and closed
       /\ i # cur' /\ f.kind # "unused" => g.closed /\ (~f.told /\ f.kind \in {"file", "pipe"} => g.got = f.exp)
       /\ i = cur' /\ f.kind # "closed" => ~g.closed
       /\ i = cur' /\ sync /\ ~f.told => g.got = f.exp
  /\ e.c = mem' /\ e.eols = Eols(mem', 0)
Write(e) ==
  /\ UNCHANGED <<cur, running>> /\ nt' = (nt /\ e.d = <<>>)
  /\ LET direct == cur # 0 /\ ~running /\ e.d # <<>> IN
     IF e.err # "" THEN
       /\ direct /\ (Bad(cur) \/ fs[cur].told)
       /\ mem' \in {mem, Cat(mem, e.d)} /\ fs' = F(cur, Told(cur)) /\ See(e, FALSE)
     ELSE
       /\ e.n = Size(e.d) /\ mem' = Cat(mem, e.d)
       /\ fs' = (IF cur = 0 THEN fs ELSE F(cur, [fs[cur] EXCEPT !.exp = Cat(@, e.d)]))
       /\ direct /\ ~fs[cur].told => ~Bad(cur)
       /\ See(e, direct)
\* e reports an error, or there was none
Report(e) ==
  IF e.err = "" THEN fs' = fs
  ELSE cur # 0 /\ (Bad(cur) \/ fs[cur].told) /\ fs' = F(cur, Told(cur))
Start(e) == /\ e.err = "" /\ UNCHANGED <<mem, fs, cur>> /\ nt' = (nt /\ running) /\ running' = (cur # 0) /\ See(e, FALSE)
\* an error must be reported, if not everything can have got there
Pending == cur # 0 /\ ~fs[cur].told /\ Bad(cur) /\ fs[cur].exp # <<>>
Stop(e) ==
  /\ UNCHANGED <<mem, cur>> /\ nt' = FALSE
  /\ Report(e) /\ (running /\ Pending => e.err # "")
  /\ running' = FALSE /\ See(e, running)
Notify(e) == UNCHANGED <<mem, cur, running>> /\ nt' = (nt \/ (running /\ e.ev = "notify")) /\ Report(e) /\ See(e, FALSE)
Settle(e) ==
  /\ UNCHANGED <<mem, cur, running>> /\ nt' = nt
  /\ Report(e)
  /\ running /\ Pending => e.err # ""
  /\ See(e, running /\ nt /\ ~Bad(cur))
SetFile(e) ==
  /\ UNCHANGED mem /\ nt' = FALSE
  /\ IF e.kind = "same" THEN e.err = "" /\ UNCHANGED <<fs, cur, running>>
     ELSE
       LET new == IF e.kind = "" THEN <<>> ELSE <<[kind |-> e.kind, exp |-> <<>>, told |-> FALSE]>>
           old == IF e.err = "" THEN fs ELSE F(cur, Told(cur)) IN
       /\ e.err # "" => cur # 0 /\ (Bad(cur) \/ fs[cur].told)
       /\ running /\ Pending => e.err # ""
       /\ IF e.err = "" THEN fs' = old \o new /\ cur' = (IF e.kind = "" THEN 0 ELSE Len(fs'))
          \* the one that could not be set is not in use
          ELSE /\ cur' = 0
               /\ fs' = old \o [i \in 1 .. Len(new) |-> [new[i] EXCEPT !.told = TRUE, !.kind = "unused"]]
       /\ running' = (cur' # 0)
  /\ IF e.kind # "same" /\ e.err # "" THEN e.c = mem' /\ e.eols = Eols(mem', 0) ELSE See(e, FALSE)
Read(e) ==
  /\ UNCHANGED <<fs, cur, running, nt>>
  /\ e.err = "" \/ (e.eof /\ mem = <<>>)
  /\ Prefix(e.got, mem) /\ Size(e.got) <= e.max
  /\ (e.max > 0 /\ mem # <<>> => e.got # <<>>)
  /\ mem' = Drop(mem, Size(e.got)) /\ See(e, FALSE)

Step(e) ==
  CASE e.ev = "write" -> Write(e)
    [] e.ev = "start" -> Start(e)
    [] e.ev = "stop" -> Stop(e)
    [] e.ev \in {"notify", "error"} -> Notify(e)
    [] e.ev = "settle" -> Settle(e)
    [] e.ev = "setfile" -> SetFile(e)
    [] e.ev = "read" -> Read(e)
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN mem' = <<>> /\ fs' = <<>> /\ cur' = 0 /\ running' = FALSE /\ nt' = FALSE
     ELSE e.bad = "" /\ Step(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
