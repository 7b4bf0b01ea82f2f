----------------------------- MODULE DecoderMC -----------------------------
(***************************************************************************)
(* Explores Decoder over a small alphabet, with input cut into chunks at   *)
(* every place, for a reader that waits (Interactive = FALSE) or that      *)
(* takes a lone ESC as a key at the end of a chunk.  Checks that the bytes *)
(* are conserved and that a reader that keeps what it holds as raw bytes   *)
(* and scans these again loses and repeats nothing; emits one history per  *)
(* transition.                                                             *)
(***************************************************************************)
EXTENDS Decoder, TLC, Json

CONSTANTS Alphabet, MaxArg, Interactive, Gen

VARIABLES m, fresh, hist

View == <<m, fresh>>

Fits(b) == Step(m, b).m # Open

\* the bytes that an out stands for
OutSize(o) ==
  IF Len(o) = 1 /\ o[1] = REPL THEN 1
  ELSE IF o[1] \in {144, 157, 158, 159} THEN Len(o) + 3
  ELSE IF o[1] >= 128 /\ o[1] <= 159 THEN 2
  ELSE IF o[1] > 61312 /\ o[1] < 61440 THEN Len(o) + 2
  ELSE IF o[1] > 61184 /\ o[1] <= 61312 THEN Len(o) + 1
  ELSE Len(Utf8Of(o[1]))
RECURSIVE OutsSize(_)
OutsSize(os) == IF os = <<>> THEN 0 ELSE OutSize(Head(os)) + OutsSize(Tail(os))

\* a cancelled sequence and DEL within one are dropped
Dropped(b) == IF m.st = "e" /\ m.u = <<>> THEN (IF b = CAN THEN 2 + Len(m.a) ELSE IF b = DEL THEN 1 ELSE 0) ELSE 0

Init == m = Ground /\ fresh = TRUE /\ hist = <<<<>>>>

Byte(b) ==
  /\ Fits(b)
  /\ LET n == Step(m, b) IN
     /\ Assert(OutsSize(n.o) + Len(Held(n.m)) + Dropped(b) = Len(Held(m)) + 1, <<"not conserved", m, b, n>>)
     /\ m' = n.m
  /\ Len(m'.a) <= MaxArg
  /\ fresh' = FALSE
  /\ hist' = [hist EXCEPT ![Len(hist)] = Append(@, b)]

Cut ==
  /\ ~fresh /\ m # Ground
  /\ fresh' = TRUE
  /\ m' = IF Interactive THEN FlushEsc(m).m ELSE m
  /\ hist' = Append(hist, <<>>)

Next == (\E b \in Alphabet : Byte(b)) \/ Cut
Spec == Init /\ [][Next]_<<m, fresh, hist>>

Rescan == LET n == Run(Ground, Held(m)) IN n.m = m /\ n.o = <<>>
Bounded == Len(hist) <= 12

\* completes whatever is incomplete, to show the state that the reader is in
Closer(x) == CASE x.st = "g" -> <<97>> [] x.st = "e" -> <<122>> [] x.st \in {"c", "i"} -> <<109, 97>>
               [] x.st = "s" -> <<98, ESCB, 92, 97>>
Emitted == Gen => PrintT("@@" \o ToJson(Append(hist', Closer(IF Interactive THEN FlushEsc(m').m ELSE m'))))
Keys == {27, 91, 49, 109, 40, 97, 24, 3, 226, 152, 131, 80, 92, 194, 155, 156}
Few == {27, 91, 49, 109, 40, 226, 131, 80, 92}
=============================================================================
