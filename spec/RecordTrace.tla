---------------------------- MODULE RecordTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of Input while it records, and replays read  *)
(* back.  Frames' times are nanoseconds as text.                           *)
(***************************************************************************)
EXTENDS Recording, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES
  l,
  kern,   \* arrived, not read
  on,     \* whether recording
  fs,     \* what was recorded
  eof     \* the end of the file was reported
vars == <<l, kern, on, fs, eof>>
Init == l = 1 /\ kern = <<>> /\ on = FALSE /\ fs = <<>> /\ eof = FALSE

Take(s, n) == SubSeq(s, 1, n)
Rest(s, n) == SubSeq(s, n + 1, Len(s))
\* e.rec is the encoding of one frame of bytes b with error text er (or none)
Frame(e, b, er) ==
  /\ e.rec # <<>> /\ Len(e.tm) = 1
  /\ e.rec = Encode([t |-> <<e.tm[1][1]>>, e |-> er, m |-> <<>>, b |-> b])
  /\ e.lo <= e.tm[1][3] /\ e.tm[1][3] <= e.hi
  /\ fs' = Append(fs, [t |-> <<e.tm[1][2]>>, e |-> er, m |-> <<>>, b |-> b])
Read(e) ==
  LET k == kern \o e.late
      b == Take(k, e.n) IN
  /\ e.n >= 0 /\ e.n <= Len(k)
  /\ IF e.ev = "readany" /\ ~e.ro THEN e.n = Len(k) ELSE IF e.err = "" THEN e.n > 0 ELSE TRUE
  /\ (e.ro => e.err # "")
  /\ kern' = Rest(k, e.n) /\ on' = on /\ eof' = (e.err = "EOF")
  /\ IF ~on THEN e.rec = <<>> /\ fs' = fs
     ELSE IF e.fail THEN
       \* the recording's failure is reported, if nothing else is
       /\ e.err # "" /\ e.rec = <<>> /\ fs' = <<>>
     ELSE IF e.rec = <<>> THEN e.err = "EOF" /\ eof /\ fs' = fs
     ELSE Frame(e, b, IF e.err = "" THEN <<>> ELSE <<e.errb>>)
Letters(b) == \A i \in 1 .. Len(b) : b[i] >= 97 /\ b[i] <= 122
EndsIn(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
Replay(e) ==
  /\ UNCHANGED <<kern, on, fs, eof>>
  /\ e.err = "" /\ Len(e.fs) = Len(fs)
  /\ \A i \in 1 .. Len(fs) :
       LET f == fs[i] g == e.fs[i] IN
       /\ g.t = f.t /\ g.e = f.e /\ g.m = f.m /\ g.b = f.b
       /\ IF f.b = <<>> THEN EndsIn(g.s, <<32, 109, 97, 114, 107>>)
          ELSE IF Letters(f.b) THEN EndsIn(g.s, <<32, 34>> \o f.b \o <<34>>) ELSE TRUE
  /\ LET d == IF e.us = <<>> THEN 0 ELSE e.us[Len(e.us)] - e.us[1] IN e.dur \in d - 1 .. d + 1

Step(e) ==
  CASE e.ev = "feed" -> kern' = kern \o e.b /\ UNCHANGED <<on, fs, eof>>
    [] e.ev = "close" -> UNCHANGED <<kern, on, fs, eof>>
    [] e.ev = "record" -> e.bad = "" /\ e.is = e.on /\ on' = e.on /\ fs' = <<>> /\ UNCHANGED <<kern, eof>>
    [] e.ev = "message" ->
         /\ fs' = Append(fs, [NoFrame EXCEPT !.m = <<e.m>>]) /\ UNCHANGED <<kern, on, eof>>
    [] e.ev \in {"readany", "readmore"} -> e.bad = "" /\ Read(e)
    [] e.ev = "replay" -> e.bad = "" /\ Replay(e)
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN kern' = <<>> /\ on' = FALSE /\ fs' = <<>> /\ eof' = FALSE
     ELSE Step(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
