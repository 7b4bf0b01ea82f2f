----------------------------- MODULE Recording -----------------------------
(***************************************************************************)
(* Recorded input: raw bytes, between APC strings that mark the time, an   *)
(* error, or are messages.  A frame is [t, e, m, b]: its time mark, error  *)
(* and message, each a sequence of at most one text, and its bytes.        *)
(*                                                                         *)
(* Raw input may have pieces of APC strings in it, such as an ESC _ that a *)
(* key sent, but no complete one.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
ESC == 27   US == 95   BS == 92
Apc(text) == <<ESC, US>> \o text \o <<ESC, BS>>
RecTime == <<114, 101, 99, 84, 105, 109, 101, 58>>
RecErr == <<114, 101, 99, 82, 101, 97, 100, 69, 114, 114, 58>>
NoFrame == [t |-> <<>>, e |-> <<>>, m |-> <<>>, b |-> <<>>]

Encode(f) ==
  (IF f.t = <<>> THEN <<>> ELSE Apc(RecTime \o f.t[1])) \o
  (IF f.e = <<>> THEN <<>> ELSE Apc(RecErr \o f.e[1])) \o
  (IF f.m = <<>> THEN <<>> ELSE Apc(f.m[1])) \o f.b
RECURSIVE EncodeAll(_)
EncodeAll(fs) == IF fs = <<>> THEN <<>> ELSE Encode(Head(fs)) \o EncodeAll(Tail(fs))

\* first position from i on of a complete APC string, and that of its end; or 0
RECURSIVE Find(_, _)
Find(s, i) ==
  IF i + 1 > Len(s) THEN <<0, 0>>
  ELSE IF s[i] = ESC /\ s[i + 1] = US THEN
    LET es == {k \in i + 2 .. Len(s) : s[k] = ESC} IN
    IF es = {} THEN <<0, 0>>
    ELSE LET k == CHOOSE k \in es : \A j \in es : k <= j IN
         IF k < Len(s) /\ s[k + 1] = BS THEN <<i, k + 1>> ELSE Find(s, k)
  ELSE Find(s, i + 1)
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
After(x, p) == SubSeq(x, Len(p) + 1, Len(x))

Push(fs, f) == IF f = NoFrame THEN fs ELSE Append(fs, f)
RECURSIVE ParseFrom(_, _, _)
ParseFrom(s, f, fs) ==
  LET r == Find(s, 1) IN
  IF r[1] = 0 THEN Push(fs, [f EXCEPT !.b = @ \o s])
  ELSE
    LET g == [f EXCEPT !.b = @ \o SubSeq(s, 1, r[1] - 1)]
        x == SubSeq(s, r[1] + 2, r[2] - 2)
        u == SubSeq(s, r[2] + 1, Len(s)) IN
    IF Starts(x, RecTime) THEN ParseFrom(u, [NoFrame EXCEPT !.t = <<After(x, RecTime)>>], Push(fs, g))
    ELSE IF Starts(x, RecErr) THEN ParseFrom(u, [g EXCEPT !.e = <<After(x, RecErr)>>], fs)
    ELSE ParseFrom(u, [NoFrame EXCEPT !.m = <<x>>], Push(fs, g))
Parse(s) == ParseFrom(s, NoFrame, <<>>)
=============================================================================
