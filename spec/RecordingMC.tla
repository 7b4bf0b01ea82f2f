---------------------------- MODULE RecordingMC ----------------------------
(***************************************************************************)
(* Frames of raw input over the bytes that marks are made of: what is read *)
(* back from a recording is what was recorded, wherever sequences were cut *)
(* by the reads.                                                           *)
(***************************************************************************)
EXTENDS Recording, TLC, Json
CONSTANTS MaxFrames, MaxRaw, Gen
VARIABLES fs
Bytes == {ESC, US, BS, 120}
RECURSIVE Raws(_)
Raws(n) == IF n = 0 THEN {<<>>} ELSE LET r == Raws(n - 1) IN r \cup {Append(x, b) : x \in r, b \in Bytes}
\* no complete APC string within
Clean(b) == Find(b, 1)[1] = 0
AllRaws == {b \in Raws(MaxRaw) : Clean(b)}
Init == fs = <<>>
Next ==
  /\ Len(fs) < MaxFrames
  /\ \/ \E b \in AllRaws, e \in {<<>>, <<<<69>>>>} : fs' = Append(fs, [t |-> <<<<49 + Len(fs)>>>>, e |-> e, m |-> <<>>, b |-> b])
     \/ \E m \in {<<>>, <<115>>} : fs' = Append(fs, [NoFrame EXCEPT !.m = <<m>>])
Spec == Init /\ [][Next]_fs
Inverse == Parse(EncodeAll(fs)) = fs
Emitted == (Gen /\ Len(fs') = MaxFrames) => PrintT("@@" \o ToJson([fs |-> fs']))
=============================================================================
