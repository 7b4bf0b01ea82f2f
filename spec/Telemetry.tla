----------------------------- MODULE Telemetry -----------------------------
(***************************************************************************)
(* Frame times and stalls are collected in windows of N frames.  A full    *)
(* window is handed to a worker, which logs the latest it was handed; what *)
(* the worker was handed is its own, if Copy, or still used otherwise.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, MaxFrames, Copy
VARIABLES k, cur, slot, out, wins, sbuf, sslot, sout, batches, token, closed, pc
vars == <<k, cur, slot, out, wins, sbuf, sslot, sout, batches, token, closed, pc>>
None == <<0>>
Init == k = 0 /\ cur = <<>> /\ slot = None /\ out = <<>> /\ wins = <<>> /\ sbuf = <<>> /\ sslot = None /\ sout = <<>> /\ batches = <<>>
        /\ token = FALSE /\ closed = FALSE /\ pc = "wait"
\* the run loop: a frame, which may stall, then a notification
Frame == /\ k < MaxFrames /\ ~closed /\ k' = k + 1
         /\ LET w == Append(cur, k + 1) full == Len(w) = N IN
            /\ cur' = IF full THEN <<>> ELSE w
            /\ wins' = IF full THEN Append(wins, w) ELSE wins
            /\ slot' = IF full THEN w ELSE slot
            /\ batches' = IF full THEN Append(batches, sbuf) ELSE batches
            /\ sslot' = IF full THEN (IF Copy THEN sbuf ELSE <<0, Len(sbuf)>>) ELSE sslot
            /\ \E st \in BOOLEAN : sbuf' = (IF full THEN <<>> ELSE sbuf) \o (IF st THEN <<k + 1>> ELSE <<>>)
         /\ token' = TRUE /\ UNCHANGED <<out, sout, closed, pc>>
Close == ~closed /\ closed' = TRUE /\ UNCHANGED <<k, cur, slot, out, wins, sbuf, sslot, sout, batches, token, pc>>
\* the worker
Wake == /\ pc = "wait" /\ (token \/ closed) /\ pc' = IF token THEN "log" ELSE "last"
        /\ token' = FALSE /\ UNCHANGED <<k, cur, slot, out, wins, sbuf, sslot, sout, batches, closed>>
\* without Copy, what is there by now, where something was put since
Value == IF ~Copy THEN (IF sbuf = <<>> /\ sslot[2] = 0 THEN batches[Len(batches)] ELSE sbuf) ELSE sslot
Log == /\ pc \in {"log", "last"}
       /\ out' = (IF slot = None THEN out ELSE Append(out, slot)) /\ slot' = None
       /\ sout' = (IF sslot = None THEN sout ELSE Append(sout, Value)) /\ sslot' = None
       /\ pc' = (IF pc = "last" THEN "done" ELSE "wait")
       /\ UNCHANGED <<k, cur, wins, sbuf, batches, token, closed>>
Next == Frame \/ Close \/ Wake \/ Log
Spec == Init /\ [][Next]_vars /\ WF_vars(Wake) /\ WF_vars(Log)
RECURSIVE Sub(_, _)
Sub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
             ELSE IF Head(a) = Head(b) THEN Sub(Tail(a), Tail(b)) ELSE Sub(a, Tail(b))
\* what is logged are windows, each once, and in order
Windows == Sub(out, wins) /\ Sub(sout, batches)
Whole == \A i \in 1 .. Len(wins) : Len(wins[i]) = N /\ \A j \in 1 .. N : wins[i][j] = (i - 1) * N + j
Last == pc = "done" /\ wins # <<>> => out # <<>> /\ out[Len(out)] = wins[Len(wins)] /\ sout[Len(sout)] = batches[Len(batches)]
Ends == closed ~> pc = "done"
=============================================================================
