---------------------------- MODULE LogConcTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of a LogSink that one goroutine logs to,     *)
(* while another, its owner, looks at it, reads it, and starts and stops   *)
(* the background worker that writes the file.  Records are numbered, and  *)
(* of 8 bytes, the last of which ends a line, or not.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  nl,     \* of every record that was begun to be written: whether it ends a line
  done,   \* number of those that were written
  lo,     \* what that was when the owner's call began
  seen,   \* number that were seen
  off,    \* bytes that were read
  direct  \* the file is written directly, for sure
vars == <<l, nl, done, lo, seen, off, direct>>
Init == l = 1 /\ nl = <<>> /\ done = 0 /\ lo = 0 /\ seen = 0 /\ off = 0 /\ direct = FALSE
Run(ids) == IF ids = <<>> THEN 0 ELSE ids[1][2]
InOrder(ids) == ids = <<>> \/ (Len(ids) = 1 /\ ids[1][1] = 1)
RECURSIVE Eols(_, _, _)
Eols(i, k, from) == IF i > k THEN <<>>
                    ELSE (IF nl[i] /\ 8 * i - 1 >= from THEN <<8 * i - 1 - from>> ELSE <<>>) \o Eols(i + 1, k, from)
Ends(k, from) == Eols((from \div 8) + 1, k, from) \o (IF 8 * k > from /\ ~nl[k] THEN <<8 * k - from>> ELSE <<>>)
Keep == UNCHANGED <<nl, done, lo, seen, off, direct>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> nl' = <<>> /\ done' = 0 /\ lo' = 0 /\ seen' = 0 /\ off' = 0 /\ direct' = FALSE
       [] e.ev = "begin" -> nl' = Append(nl, e.nl) /\ UNCHANGED <<done, lo, seen, off, direct>>
       [] e.ev = "end" -> e.bad = "" /\ e.err = "" /\ e.n = 8 /\ done' = done + 1 /\ UNCHANGED <<nl, lo, seen, off, direct>>
       [] e.ev = "call" -> lo' = done /\ direct' = (direct /\ e.op # "start") /\ UNCHANGED <<nl, done, seen, off>>
       [] e.ev = "look" -> \* e.ids: of what was read and what is there, whole
          /\ e.bad = "" /\ InOrder(e.ids)
          /\ LET k == Run(e.ids) IN
             /\ k >= lo /\ k >= seen /\ k <= Len(nl) /\ e.size = 8 * k - off
             /\ e.eols = Ends(k, off)
             /\ seen' = k
          /\ UNCHANGED <<nl, done, lo, off, direct>>
       [] e.ev = "read" ->
          /\ e.bad = "" /\ (IF e.eof THEN off >= 8 * lo /\ e.n = 0 ELSE e.err = "" /\ (e.max > 0 => e.n > 0))
          /\ off + e.n <= 8 * Len(nl) /\ off' = off + e.n /\ UNCHANGED <<nl, done, lo, seen, direct>>
       [] e.ev \in {"start", "notify"} -> e.bad = "" /\ e.err = "" /\ Keep
       [] e.ev = "stop" -> e.bad = "" /\ e.err = "" /\ direct' = TRUE /\ UNCHANGED <<nl, done, lo, seen, off>>
       [] e.ev = "file" ->
          /\ e.bad = "" /\ InOrder(e.ids)
          /\ LET k == Run(e.ids) IN k <= Len(nl) /\ (direct => k >= lo)
          /\ Keep
       [] e.ev = "race" -> e.n = 0 /\ Keep
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
