------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Recording the input of a frame loop, and replaying it: a recording is   *)
(* the sequence of chunks of input as they were read, with the screen's    *)
(* size written between them as it changes; a replay takes one chunk per   *)
(* frame, and any sizes before it.  What the client sees in a replayed     *)
(* frame has to be what it saw in the recorded one.                        *)
(*                                                                         *)
(* Keys are bytes; a key may come in two halves, 1 and 2, that are read in *)
(* different frames; others are 3.  The decoder holds a first half.        *)
(*                                                                         *)
(* SizeAt = "poll" is what has to be; with "redraw" sizes are written when *)
(* the frame is redrawn, after the frame's input, as it once was.          *)
(* Decode = "stream" is what has to be; "chunk" decodes each on its own.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxKeys, MaxSizes, MaxFrames, SizeAt, DecodeBy, Gen
VARIABLES
  kern, typed, half,   \* typed and not read; number of keys; first half is typed
  tsize, swin,         \* terminal's size; signal of its change
  screen, last,        \* size of screen; in last frame
  held,                \* live decoder holds a half
  rec,                 \* the recording: <<0, size>>, <<1, chunk>>
  frames, seen,        \* all frames; those with input
  pos, rheld, rsize, again,  \* replay: entry, decoder, size, frames
  hist
vars == <<kern, typed, half, tsize, swin, screen, last, held, rec, frames, seen, pos, rheld, rsize, again, hist>>
view == <<kern, typed, half, tsize, swin, screen, last, held, rec, frames, seen, pos, rheld, rsize, again>>
Init ==
  /\ kern = <<>> /\ typed = 0 /\ half = FALSE /\ tsize = 1 /\ swin = FALSE /\ screen = 1 /\ last = 1 /\ held = FALSE
  /\ rec = <<<<0, 1>>>> /\ frames = 0 /\ seen = <<>> /\ pos = 0 /\ rheld = FALSE /\ rsize = 0 /\ again = <<>> /\ hist = <<>>

\* events of a chunk: number of keys, given what is held; and what is then
RECURSIVE Decode(_, _, _)
Decode(h, bs, n) ==
  IF bs = <<>> THEN <<n, h>>
  ELSE CASE Head(bs) = 1 -> Decode(TRUE, Tail(bs), n)
         [] Head(bs) = 2 -> Decode(FALSE, Tail(bs), IF h THEN n + 1 ELSE n + 10)
         [] Head(bs) = 3 -> Decode(FALSE, Tail(bs), n + 1)

Rec == <<screen, last, held, rec, frames, seen>>
Rep == <<pos, rheld, rsize, again>>
Type(b) ==
  /\ pos = 0 /\ (half <=> b = 2) /\ (b # 2 => typed < MaxKeys)
  /\ kern' = Append(kern, b) /\ typed' = (IF b = 2 THEN typed ELSE typed + 1) /\ half' = (b = 1)
  /\ hist' = Append(hist, IF b = 1 THEN "h1" ELSE IF b = 2 THEN "h2" ELSE "k")
  /\ UNCHANGED <<tsize, swin>> /\ UNCHANGED Rec /\ UNCHANGED Rep
Resize ==
  /\ pos = 0 /\ tsize < MaxSizes
  /\ tsize' = tsize + 1 /\ swin' = TRUE /\ hist' = Append(hist, "s")
  /\ UNCHANGED <<kern, typed, half>> /\ UNCHANGED Rec /\ UNCHANGED Rep
\* takes the signals that have been delivered: of size, win; of input, for n bytes of it
Frame(win, n) ==
  /\ pos = 0 /\ frames < MaxFrames /\ (win => swin)
  /\ LET chunk == SubSeq(kern, 1, n)
         d == Decode(held, chunk, 0)
         size == IF win THEN tsize ELSE screen
         sizes == IF size # screen THEN <<<<0, size>>>> ELSE <<>>
         input == IF n > 0 THEN <<<<1, chunk>>>> ELSE <<>> IN
     /\ rec' = rec \o (IF SizeAt = "poll" THEN sizes \o input ELSE input \o sizes)
     /\ screen' = size /\ last' = size /\ held' = d[2]
     /\ seen' = IF n > 0 THEN Append(seen, [size |-> size, n |-> d[1]]) ELSE seen
     /\ kern' = SubSeq(kern, n + 1, Len(kern))
  /\ swin' = (swin /\ ~win) /\ frames' = frames + 1
  /\ hist' = Append(hist, "f")
  /\ UNCHANGED <<typed, half, tsize>> /\ UNCHANGED Rep
RECURSIVE NextChunk(_, _)
NextChunk(p, size) ==
  IF p > Len(rec) THEN <<0, p, size>>
  ELSE IF rec[p][1] = 0 THEN NextChunk(p + 1, rec[p][2]) ELSE <<1, p, size>>
Again ==
  /\ frames = MaxFrames
  /\ LET c == NextChunk(pos + 1, rsize) IN
     /\ c[1] = 1
     /\ LET d == Decode(IF DecodeBy = "stream" THEN rheld ELSE FALSE, rec[c[2]][2], 0) IN
        /\ rheld' = d[2] /\ again' = Append(again, [size |-> c[3], n |-> d[1]])
     /\ pos' = c[2] /\ rsize' = c[3]
  /\ UNCHANGED <<kern, typed, half, tsize, swin, hist>> /\ UNCHANGED Rec
Next == (\E b \in 1 .. 3 : Type(b)) \/ Resize \/ (\E w \in BOOLEAN, n \in 0 .. Len(kern) : Frame(w, n)) \/ Again
Spec == Init /\ [][Next]_vars

Same == again = SubSeq(seen, 1, Len(again))
All == (frames = MaxFrames /\ pos > 0 /\ NextChunk(pos + 1, rsize)[1] = 0) => again = seen
Emitted == (Gen /\ hist' # hist /\ Len(hist') > 0 /\ hist'[Len(hist')] = "f" /\ frames' = MaxFrames /\ seen' # <<>>) =>
             PrintT("@@" \o ToJson([h |-> hist']))
=============================================================================
