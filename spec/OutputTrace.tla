---------------------------- MODULE OutputTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of Output.Flush on a pipe.  The stream is    *)
(* made so that byte number i is i mod 251; what the reader got is given   *)
(* as maximal runs <<first byte, length>> of consecutive ones.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  sent,    \* bytes that the file took
  pend,    \* bytes in the buffer that it did not take
  closed,  \* the reader is gone
  cap, sl  \* capacity of the stall buffer, and entries in it
vars == <<l, sent, pend, closed, cap, sl>>
Init == l = 1 /\ sent = 0 /\ pend = 0 /\ closed = FALSE /\ cap = 0 /\ sl = 0

\* got is the stream from position p for n bytes
Is(got, p, n) == IF n = 0 THEN got = <<>> ELSE got = <<<<p % 251, n>>>>
Stalled(e) ==
  LET may == e.fl0.nonblock /\ e.add + pend > e.room
      more == IF sl < cap THEN sl + 1 ELSE sl IN
  IF e.polled \/ ~may THEN sl' = sl
  ELSE IF e.reader = "late" THEN sl' = more
  ELSE sl' \in {sl, more}
Flush(e) ==
  /\ e.fl1 = e.fl0
  /\ e.flushed >= 0 /\ e.flushed <= pend + e.add
  /\ sent' = sent + e.flushed /\ pend' = pend + e.add - e.flushed
  /\ e.left = pend'
  /\ closed' = (closed \/ e.reader = "close")
  /\ IF e.err = "" THEN pend' = 0 ELSE closed'
  /\ closed /\ pend + e.add > 0 => e.err # "" /\ e.flushed = 0
  /\ IF closed' THEN \E n \in 0 .. e.flushed : Is(e.got, sent, n)
     ELSE Is(e.got, sent, e.flushed)
  /\ Stalled(e) /\ UNCHANGED cap
Track(e) == cap' = e.n /\ sl' = 0 /\ UNCHANGED <<sent, pend, closed>>
Stalls(e) == /\ e.n = sl
             /\ sl' = (IF sl = cap \/ e.consume THEN 0 ELSE sl) /\ UNCHANGED <<sent, pend, closed, cap>>
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN sent' = 0 /\ pend' = 0 /\ closed' = FALSE /\ cap' = 0 /\ sl' = 0
     ELSE /\ e.bad = ""
          /\ CASE e.ev = "flush" -> Flush(e) [] e.ev = "track" -> Track(e) [] e.ev = "stalls" -> Stalls(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
