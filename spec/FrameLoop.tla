----------------------------- MODULE FrameLoop -----------------------------
(***************************************************************************)
(* The platform's frame loop: input and changes of the terminal's size     *)
(* arrive at any time, announced by signals that the system delivers some  *)
(* time later, and that merge when not taken in time.  In every frame the  *)
(* loop takes what signals there are, in any order and as often as they    *)
(* come, and then updates the client once with the input taken.            *)
(*                                                                         *)
(* ClearAt = "frame" is the loop as it has to be; with "signal" the queue  *)
(* of events is cleared when input is taken, as it once was: input that is *)
(* taken together with that of a signal yet to come is lost, and input     *)
(* that was not consumed shows up again.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxKeys, MaxSizes, MaxFrames, ClearAt, Gen
VARIABLES
  kern,    \* typed, not read
  typed,   \* number of keys typed: 1, 2 ...
  sio, cio,    \* input signal: raised, and in the channel
  tsize,   \* the terminal's size, 1, 2 ...
  swin, cwin,  \* size signal: raised, and in the channel
  pc,      \* where the loop is
  evs,     \* queue of events
  screen,  \* the screen's size
  last,    \* size in the last frame
  frames,  \* [evs, size, redraw] of the frames so far
  hist
vars == <<kern, typed, sio, cio, tsize, swin, cwin, pc, evs, screen, last, frames, hist>>
view == <<kern, typed, sio, cio, tsize, swin, cwin, pc, evs, screen, last, frames>>
Init ==
  /\ kern = <<>> /\ typed = 0 /\ sio = FALSE /\ cio = FALSE /\ tsize = 1 /\ swin = FALSE /\ cwin = FALSE
  /\ pc = "start" /\ evs = <<>> /\ screen = 1 /\ last = 0 /\ frames = <<>> /\ hist = <<>>

Type ==
  /\ typed < MaxKeys
  /\ typed' = typed + 1 /\ kern' = Append(kern, typed + 1) /\ sio' = TRUE
  /\ hist' = Append(hist, "k")
  /\ UNCHANGED <<cio, tsize, swin, cwin, pc, evs, screen, last, frames>>
Resize ==
  /\ tsize < MaxSizes
  /\ tsize' = tsize + 1 /\ swin' = TRUE
  /\ hist' = Append(hist, "s")
  /\ UNCHANGED <<kern, typed, sio, cio, cwin, pc, evs, screen, last, frames>>
\* the channels hold one signal; more are dropped
Raise ==
  /\ \/ sio /\ sio' = FALSE /\ cio' = TRUE /\ UNCHANGED <<swin, cwin>>
     \/ swin /\ swin' = FALSE /\ cwin' = TRUE /\ UNCHANGED <<sio, cio>>
  /\ UNCHANGED <<kern, typed, tsize, pc, evs, screen, last, frames, hist>>

Start ==
  /\ pc = "start" /\ pc' = "poll"
  /\ evs' = IF ClearAt = "frame" THEN <<>> ELSE evs
  /\ UNCHANGED <<kern, typed, sio, cio, tsize, swin, cwin, screen, last, frames, hist>>
TakeIo ==
  /\ pc = "poll" /\ cio /\ cio' = FALSE /\ pc' = "read"
  /\ UNCHANGED <<kern, typed, sio, tsize, swin, cwin, evs, screen, last, frames, hist>>
Read ==
  /\ pc = "read" /\ pc' = "poll"
  /\ evs' = (IF ClearAt = "signal" THEN <<>> ELSE evs) \o kern /\ kern' = <<>>
  /\ UNCHANGED <<typed, sio, cio, tsize, swin, cwin, screen, last, frames, hist>>
TakeWin ==
  /\ pc = "poll" /\ cwin /\ cwin' = FALSE /\ screen' = tsize
  /\ UNCHANGED <<kern, typed, sio, cio, tsize, swin, pc, evs, last, frames, hist>>
Frame ==
  /\ pc = "poll" /\ ~cio /\ ~cwin /\ Len(frames) < MaxFrames
  /\ LET redraw == screen # last
         size == IF redraw THEN tsize ELSE screen IN
     /\ screen' = size /\ last' = size
     /\ frames' = Append(frames, [evs |-> evs, size |-> size, redraw |-> redraw])
  /\ pc' = "start"
  /\ hist' = Append(hist, "f")
  /\ UNCHANGED <<kern, typed, sio, cio, tsize, swin, cwin, evs>>
Next == Type \/ Resize \/ Raise \/ Start \/ TakeIo \/ Read \/ TakeWin \/ Frame
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs).evs \o Cat(Tail(fs))
\* each key in exactly one frame, in order; none lost
Seen == Cat(frames) \o (IF pc = "start" THEN <<>> ELSE evs) \o kern
Once == Seen = [i \in 1 .. typed |-> i]
\* what is not seen yet is announced
Announced == /\ kern # <<>> => sio \/ cio \/ pc = "read"
             /\ screen # tsize => swin \/ cwin
\* a change of size is redrawn
Redrawn == \A i \in 2 .. Len(frames) : frames[i].redraw <=> frames[i].size # frames[i - 1].size
Emitted == (Gen /\ hist' # hist /\ Len(hist') > 0 /\ hist'[Len(hist')] = "f" /\ Len(frames') = MaxFrames) =>
             PrintT("@@" \o ToJson([h |-> hist']))
=============================================================================
