------------------------------- MODULE SgrMC -------------------------------
(***************************************************************************)
(* The algebra of attributes, exhaustively over small domains: differences *)
(* and merges compose, and the encoding of an attribute does to a terminal *)
(* what merging it does.  Emits the pairs, for the real implementation.    *)
(***************************************************************************)
EXTENDS Sgr, TLC, Json

CONSTANTS Flags, Colors, Gen

VARIABLES a, b, done

Attrs == {<<f, x, y>> : f \in Flags, x \in Colors, y \in Colors}

\* the least that has to be merged into p to get q
Diff(p, q) ==
  IF HasClear(q) THEN q
  ELSE LET g == SansClear(p[1]) IN
       IF (g & q[1]) # g \/ (p[2] >= 0 /\ q[2] < 0) \/ (p[3] >= 0 /\ q[3] < 0)
       THEN <<q[1] + CLEAR, q[2], q[3]>>
       ELSE <<q[1] - g, IF q[2] = p[2] THEN -1 ELSE q[2], IF q[3] = p[3] THEN -1 ELSE q[3]>>

\* parameters that encode an attribute
ColorPs(c, base) ==
  IF c < 0 THEN <<>>
  ELSE IF c < 8 THEN <<base + c>>
  ELSE IF c < 16 THEN <<base + 60 + c - 8>>
  ELSE IF c < 256 THEN <<base + 8, 5, c>>
  ELSE LET k == c - RGBBASE IN <<base + 8, 2, k \div 65536, (k \div 256) % 256, k % 256>>
FlagPs(f) ==
  (IF f >= CLEAR THEN <<0>> ELSE <<>>) \o (IF f % 2 = 1 THEN <<1>> ELSE <<>>)
  \o (IF (f \div 2) % 2 = 1 THEN <<2>> ELSE <<>>) \o (IF (f \div 4) % 2 = 1 THEN <<3>> ELSE <<>>)
  \o (IF (f \div 8) % 2 = 1 THEN <<4>> ELSE <<>>) \o (IF (f \div 16) % 2 = 1 THEN <<7>> ELSE <<>>)
  \o (IF (f \div 32) % 2 = 1 THEN <<8>> ELSE <<>>)
Encode(p) == IF p = AttrZero THEN <<0>> ELSE FlagPs(p[1]) \o ColorPs(p[2], 30) \o ColorPs(p[3], 40)

Init == a \in Attrs /\ b = AttrZero /\ done = FALSE
Next == ~done /\ done' = TRUE /\ a' = a /\ b' \in Attrs
Spec == Init /\ [][Next]_<<a, b, done>>

Laws ==
  done =>
    /\ Merge(a, Diff(a, b)) = Norm(b)
    /\ (~HasClear(b) /\ Norm(a) = b) <=> Diff(a, b) = AttrZero
    /\ Merge(Norm(a), AttrZero) = Norm(a)
    /\ Merge(Merge(a, b), b) = Merge(a, b)
    /\ ApplySgr(Norm(a), Encode(b)) = (IF b = AttrZero THEN AttrZero ELSE Merge(a, b))
Emitted == Gen => PrintT("@@" \o ToJson([a |-> a, b |-> b']))
AllFlags == 0 .. 127
SomeFlags == {0, 1, 2, 5, 24, 32, 33, 63, 64, 65, 96, 127}
ManyFlags == {0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 31, 32, 33, 48, 62, 63, 64, 65, 66, 96, 98, 127}
SomeColors == {-1, 1, 12, 200, RGBBASE + 65793}
FewColors == {-1, 0, 9, RGBBASE}
NoColors == {-1, 7}
=============================================================================
