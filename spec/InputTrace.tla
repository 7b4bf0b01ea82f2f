----------------------------- MODULE InputTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of Input on a real file descriptor: what     *)
(* the reads take from the kernel, how they end, and what is decoded.      *)
(***************************************************************************)
EXTENDS Decoder, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,
  kern,    \* bytes in the kernel, not read yet
  open,    \* there is a writer
  base,    \* decoder at the last complete drain
  got,     \* bytes read since then
  given,   \* that many outs were delivered since then
  eof,     \* Input.AtEOF
  flags,   \* [nonblock, async] as set from outside, before Enter
  full     \* the last read may have filled the buffer
vars == <<l, kern, open, base, got, given, eof, flags, full>>

Init == /\ l = 1 /\ kern = <<>> /\ open = TRUE /\ base = Ground /\ got = <<>> /\ given = 0
        /\ eof = FALSE /\ flags = <<FALSE, FALSE>> /\ full = FALSE

Drop(s, n) == SubSeq(s, n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b
IsPrefix2(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Reset(e) == /\ e.ev = "reset"
            /\ kern' = <<>> /\ open' = TRUE /\ base' = Ground /\ got' = <<>> /\ given' = 0
            /\ eof' = FALSE /\ flags' = e.flags /\ full' = FALSE

Feed(e) == e.ev = "feed" /\ kern' = kern \o e.b /\ UNCHANGED <<open, base, got, given, eof, flags, full>>
Close(e) == e.ev = "close" /\ open' = FALSE /\ UNCHANGED <<kern, base, got, given, eof, flags, full>>
\* somebody else sets the file flags
Ext(e) == e.ev = "ext" /\ UNCHANGED <<kern, open, base, got, given, eof, flags, full>>

\* takes all there is, and never waits
ReadAny(e) ==
  /\ e.ev = "readany" /\ e.bad = ""
  /\ e.n = Len(kern) /\ got' = got \o kern /\ kern' = <<>>
  /\ e.err = IF open THEN "" ELSE "EOF"
  /\ e.ateof = ~open /\ eof' = ~open
  /\ full' = FALSE
  /\ UNCHANGED <<open, base, given, flags>>

\* waits for something; e.late is fed while it waits
ReadMore(e) ==
  /\ e.ev = "readmore" /\ e.bad = ""
  /\ IF kern = <<>> /\ ~open
     THEN /\ e.n = 0 /\ e.err = "EOF" /\ e.ateof /\ eof' = TRUE
          /\ UNCHANGED <<kern, got, full>>
     ELSE LET k == kern \o e.late IN
          /\ e.n >= 1 /\ e.n <= Len(k) /\ e.err = "" /\ ~e.ateof /\ eof' = FALSE
          /\ got' = got \o SubSeq(k, 1, e.n) /\ kern' = Drop(k, e.n)
          /\ full' = e.small
  /\ UNCHANGED <<open, base, given, flags>>

\* decoded as far as possible
Drain(e) ==
  /\ e.ev = "drain" /\ e.bad = ""
  /\ LET n == Run(base, got)
         outs == Drop(n.o, given)
         f == IF eof THEN FlushEOF(n.m) ELSE FlushEsc(n.m) IN
     \/ f.m = Open /\ base' = Open /\ got' = <<>> /\ given' = 0
     \/ e.outs = outs \o f.o /\ base' = f.m /\ got' = <<>> /\ given' = 0
     \* an ESC in a full buffer waits for more
     \/ /\ full /\ ~eof /\ Len(e.outs) <= Len(outs)
        /\ IsPrefix2(e.outs, outs)
        /\ LET r == outs \o f.o IN Len(e.outs) < Len(r) /\ r[Len(e.outs) + 1] = <<ESCB>>
        /\ given' = given + Len(e.outs) /\ UNCHANGED <<base, got>>
  /\ UNCHANGED <<kern, open, eof, flags, full>>

\* only some decoded, on input that ends where an escape sequence ends
Some(e) ==
  /\ e.ev = "some" /\ e.bad = ""
  /\ LET n == Run(base, got)
         outs == Drop(n.o, given) IN
     \/ n.m = Open
     \/ IsPrefix2(e.outs, outs) /\ Len(e.outs) = Min2(e.max, Len(outs))
  /\ given' = given + Len(e.outs)
  /\ UNCHANGED <<kern, open, base, got, eof, flags, full>>

Notify(e) == e.ev = "notify" /\ e.bad = "" /\ e.err = "" /\ e.signaled = e.on /\ e.async = e.on
             /\ kern' = kern \o e.b
             /\ UNCHANGED <<open, base, got, given, eof, flags, full>>

\* leaving the terminal context restores the file flags
Exit(e) == e.ev = "exit" /\ e.bad = "" /\ e.err = "" /\ e.flags = flags
           /\ UNCHANGED <<kern, open, base, got, given, eof, flags, full>>
Enter(e) == e.ev = "enter" /\ e.bad = "" /\ e.err = ""
           /\ UNCHANGED <<kern, open, base, got, given, eof, flags, full>>

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     Reset(e) \/ Feed(e) \/ Close(e) \/ Ext(e) \/ ReadAny(e) \/ ReadMore(e) \/ Drain(e) \/ Some(e)
     \/ Notify(e) \/ Enter(e) \/ Exit(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
