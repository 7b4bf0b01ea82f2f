------------------------------- MODULE EmuMC -------------------------------
(***************************************************************************)
(* Explores the emulation over a small screen and compares it, in every    *)
(* state, with the reference terminal for as long as the history did not   *)
(* reach the point where the two wrap or scroll differently.  Emits the    *)
(* histories, for replay into the real emulation.                          *)
(***************************************************************************)
EXTENDS Emu, Decoder, TLC, Json
T == INSTANCE Terminal

CONSTANTS W, H, MaxLen, Gen

VARIABLES s, t, same, hist

Strings == {
  <<97>>, <<98>>, <<13>>, <<10>>,
  <<27, 91, 50, 59, 50, 72>>,          \* CUP 2;2
  <<27, 91, 57, 59, 57, 72>>,          \* CUP 9;9
  <<27, 91, 72>>, <<27, 91, 65>>, <<27, 91, 50, 66>>, <<27, 91, 67>>, <<27, 91, 57, 68>>,
  <<27, 91, 74>>, <<27, 91, 49, 74>>, <<27, 91, 50, 74>>,
  <<27, 91, 75>>, <<27, 91, 49, 75>>, <<27, 91, 50, 75>>,
  <<27, 91, 109>>, <<27, 91, 49, 59, 51, 49, 109>>, <<27, 91, 52, 50, 109>>,
  <<27, 91, 63, 50, 53, 104>>, <<27, 91, 63, 50, 53, 108>>,
  <<194, 155, 66>>, <<7>>, <<9>>, <<27, 91, 49, 76>>, <<27, 93, 120, 27, 92>> }

\* tokens for the reference terminal
Tok(o) ==
  IF IsEscapeId(o[1])
  THEN LET a == Tail(o)
           priv == IF a # <<>> /\ a[1] = 63 THEN 63 ELSE 0 IN
       <<2, o[1] - 61312, priv>> \o Nums(IF priv = 0 THEN a ELSE Tail(a))
  ELSE IF o[1] < 32 THEN <<1, o[1]>> ELSE <<0, o[1]>>
Ignored(o) == o[1] \in {7, 9, 157, 61312 + 76}

Init == /\ s = [NewEmu(W, H) EXCEPT !.x = 1, !.y = 1, !.v = TRUE]
        /\ t = T!NewTerm(W, H, T!BlankCells(W, H), FALSE)
        /\ same = TRUE /\ hist = <<>>

Write(b) ==
  LET o == Run(Ground, b).o[1] IN
  /\ s' = EmuOut(s, o, TRUE)
  /\ t' = IF Ignored(o) THEN t ELSE T!TermStep(t, Tok(o))
  /\ same' = (same /\ ~t'.pend)
  /\ hist' = Append(hist, b)

Next == Len(hist) < MaxLen /\ \E b \in Strings : Write(b)
Spec == Init /\ [][Next]_<<s, t, same, hist>>

Agrees ==
  same => /\ s.x = t.x /\ s.y = t.y /\ s.a = t.a /\ s.v = t.v /\ ~t.bad
          /\ \A i \in 1 .. W * H : T!Shown(s.c[i]) = t.c[i]
InBounds == s.x \in 1 .. W /\ s.y \in 1 .. H

View == <<s, t, same, Len(hist)>>
Emitted == Gen => PrintT("@@" \o ToJson(hist'))
=============================================================================
