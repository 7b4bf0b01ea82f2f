------------------------------ MODULE LogSink ------------------------------
(***************************************************************************)
(* A log sink that holds what was logged in memory, and passes it on to a  *)
(* file: directly, or by a background worker, woken once for any number of *)
(* notifications.                                                          *)
(*                                                                         *)
(* The design: deferred bytes are taken, under a lock, from the shared     *)
(* buffer into the worker's own, and written from there; the worker holds  *)
(* on to the channels it was started with, ends at its first error, and    *)
(* takes what is left once more when its channel is closed.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxWrite, MaxOps, Fails, Gen
VARIABLES
  n,         \* bytes logged to the file at hand, numbered 1 .. n
  dfr, own,  \* deferred, and taken by the worker
  file,      \* what the file got
  open,      \* whether there is a file
  running, direct,
  pc,        \* the worker: "off", "wait", "take", "write"
  token, closed, werr, \* its channels: notified; closed; error left behind
  told,      \* an error was reported
  stopping,  \* Stop waits for the worker: to just stop, or to change the file
  ops, log
vars == <<n, dfr, own, file, open, running, direct, pc, token, closed, werr, told, stopping, ops, log>>

Init ==
  /\ n = 0 /\ dfr = <<>> /\ own = <<>> /\ file = <<>> /\ open = FALSE /\ running = FALSE /\ direct = FALSE
  /\ pc = "off" /\ token = FALSE /\ closed = FALSE /\ werr = FALSE /\ told = FALSE /\ stopping = "" /\ ops = 0 /\ log = <<>>
Op(v) == stopping = "" /\ ops < MaxOps /\ ops' = ops + 1 /\ log' = IF Gen THEN Append(log, v) ELSE log

Write == /\ open /\ n < MaxWrite /\ Op("write")
         /\ n' = n + 1
         /\ IF direct THEN \/ file' = Append(file, n + 1) /\ UNCHANGED <<dfr, told>>
                           \/ Fails /\ told' = TRUE /\ UNCHANGED <<dfr, file>>
            ELSE dfr' = Append(dfr, n + 1) /\ UNCHANGED <<file, told>>
         /\ UNCHANGED <<own, open, running, direct, pc, token, closed, werr, stopping>>
StartWorker == running' = TRUE /\ direct' = FALSE /\ pc' = "wait" /\ token' = FALSE /\ closed' = FALSE /\ werr' = FALSE
Start == /\ Op("start")
         /\ IF open /\ ~running THEN StartWorker ELSE UNCHANGED <<running, direct, pc, token, closed, werr>>
         /\ UNCHANGED <<n, dfr, own, file, open, told, stopping>>
Notify == /\ Op("notify") /\ running
          /\ IF werr THEN running' = FALSE /\ closed' = TRUE /\ told' = TRUE /\ werr' = FALSE /\ UNCHANGED token
             ELSE token' = TRUE /\ UNCHANGED <<running, closed, told, werr>>
          /\ UNCHANGED <<n, dfr, own, file, open, direct, pc, stopping>>
\* the file is replaced, set for the first time, or stopped being written in the background
Change(v) == \* v: "stop", "none", "new"
  /\ Op(v)
  /\ IF open /\ running THEN closed' = TRUE /\ running' = FALSE /\ stopping' = v
     ELSE stopping' = (IF v = "stop" THEN "" ELSE v) /\ UNCHANGED <<closed, running>>
  /\ UNCHANGED <<n, dfr, own, file, open, direct, pc, token, werr, told>>
Stopped ==
  /\ stopping # "" /\ pc = "off"
  /\ stopping' = "" /\ told' = (stopping = "stop" /\ (told \/ werr))
  /\ IF stopping = "stop" THEN direct' = TRUE /\ werr' = FALSE /\ UNCHANGED <<n, dfr, own, file, open, running, pc, token, closed>>
     ELSE /\ n' = 0 /\ dfr' = <<>> /\ own' = <<>> /\ file' = <<>>
          /\ open' = (stopping = "new")
          /\ IF stopping = "new" THEN StartWorker
             ELSE running' = FALSE /\ werr' = FALSE /\ UNCHANGED <<direct, pc, token, closed>>
  /\ UNCHANGED <<ops, log>>

Main == \/ Write \/ Start \/ Notify \/ Stopped \/ (\E v \in {"stop", "none", "new"} : Change(v))
Wake == /\ pc = "wait" /\ (token \/ closed) /\ pc' = "take" /\ token' = FALSE
        /\ UNCHANGED <<n, dfr, own, file, open, running, direct, closed, werr, told, stopping, ops, log>>
Take == /\ pc = "take" /\ own' = own \o dfr /\ dfr' = <<>> /\ pc' = "write"
        /\ UNCHANGED <<n, file, open, running, direct, token, closed, werr, told, stopping, ops, log>>
Put == /\ pc = "write" /\ own # <<>>
       /\ \/ file' = Append(file, Head(own)) /\ own' = Tail(own) /\ UNCHANGED <<pc, werr>>
          \/ Fails /\ werr' = TRUE /\ pc' = "off" /\ UNCHANGED <<file, own>>
       /\ UNCHANGED <<n, dfr, open, running, direct, token, closed, told, stopping, ops, log>>
\* a notification that came meanwhile is still there when the channel is closed
Done == /\ pc = "write" /\ own = <<>>
        /\ IF token THEN pc' = "take" /\ token' = FALSE
           ELSE pc' = (IF closed THEN "last" ELSE "wait") /\ UNCHANGED token
        /\ UNCHANGED <<n, dfr, own, file, open, running, direct, closed, werr, told, stopping, ops, log>>
\* the closed channel wakes the worker a last time
Last == /\ pc = "last" /\ IF dfr = <<>> THEN pc' = "off" ELSE pc' = "take"
        /\ UNCHANGED <<n, dfr, own, file, open, running, direct, token, closed, werr, told, stopping, ops, log>>
Worker == Wake \/ Take \/ Put \/ Done \/ Last
Next == Main \/ Worker
Spec == Init /\ [][Next]_vars /\ WF_vars(Worker) /\ WF_vars(Stopped)

All == [i \in 1 .. n |-> i]
Ordered == ~told /\ open => file \o own \o dfr = All
Settled == /\ open /\ ~running /\ stopping = "" /\ ~told => file = All
           /\ stopping # "" /\ pc = "off" /\ ~told /\ ~werr /\ open => file = All
OneWorker == running => pc # "off" \/ werr
Prefix == open => \A i \in 1 .. Len(file) : file[i] = i \/ told
Stops == stopping # "" ~> stopping = ""
\* a notification gets everything logged before it to the file, or an error reported
Arrives == \A k \in 1 .. MaxWrite : (open /\ token /\ n >= k) ~> (Len(file) >= k \/ ~open \/ werr \/ told \/ stopping # "" \/ n < k)
Emitted == (Gen /\ log' # log) => PrintT("@@" \o ToJson([log |-> log']))
View == <<n, dfr, own, file, open, running, direct, pc, token, closed, werr, told, stopping, ops>>
=============================================================================
