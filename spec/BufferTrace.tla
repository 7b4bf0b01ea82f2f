---------------------------- MODULE BufferTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of Buffer: everything written to it comes    *)
(* out of WriteTo once and in order, unaltered by Process, which passes on *)
(* exactly what Decoder.tla emits for the bytes, however these were split. *)
(***************************************************************************)
EXTENDS Decoder, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,
  buf,  \* bytes that were not written out
  off,  \* that many of these have been processed (or skipped)
  m     \* decoder
vars == <<l, buf, off, m>>

Init == l = 1 /\ buf = <<>> /\ off = 0 /\ m = Ground

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Ok(e) == e.bad = "" /\ e.buf = buf'

Reset(e) == e.ev = "reset" /\ buf' = <<>> /\ off' = 0 /\ m' = Ground
Write(e) == e.ev = "write" /\ e.n = Len(e.b) /\ buf' = buf \o e.b /\ UNCHANGED <<off, m>> /\ Ok(e)
Process(e) ==
  /\ e.ev = "process"
  /\ LET n == Run(m, Drop(buf, off)) IN (n.m = Open \/ e.outs = n.o) /\ m' = n.m
  /\ off' = Len(buf) /\ UNCHANGED buf /\ Ok(e)
\* what was skipped is not decoded; it may or may not cut an incomplete sequence short
Skip(e) ==
  /\ e.ev = "skip"
  /\ off' = off + e.n /\ UNCHANGED buf /\ Ok(e)
  /\ m' \in {m, Ground}
Discard(e) == e.ev = "discard" /\ buf' = Drop(buf, off) /\ off' = 0 /\ UNCHANGED m /\ Ok(e)
Clear(e) == e.ev = "clear" /\ buf' = <<>> /\ off' = 0 /\ m' = Ground /\ Ok(e)
WriteTo(e) ==
  /\ e.ev = "writeto"
  /\ e.n = Len(e.got) /\ e.n <= Len(buf) /\ SubSeq(buf, 1, e.n) = e.got
  /\ (e.err = "") = (e.n = Len(buf))
  /\ buf' = Drop(buf, e.n) /\ off' = IF off > e.n THEN off - e.n ELSE 0
  /\ UNCHANGED m /\ Ok(e)

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     Reset(e) \/ Write(e) \/ Process(e) \/ Skip(e) \/ Discard(e) \/ Clear(e) \/ WriteTo(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
