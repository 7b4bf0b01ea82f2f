------------------------------- MODULE Filter -------------------------------
(***************************************************************************)
(* What the filter commands make of a stream of bytes.                     *)
(*                                                                         *)
(* to24bit writes it as it is, except for SGR control sequences that set a *)
(* palette color: instead of each comes one that does the same to any      *)
(* terminal, with 24-bit colors.                                           *)
(* decode -strip writes its runes and controls, without any sequences.     *)
(***************************************************************************)
EXTENDS Sgr, Decoder

At(p, i) == IF i <= Len(p) THEN p[i] ELSE -1
RECURSIVE While(_, _, _, _)
While(p, i, lo, hi) == IF At(p, i) >= lo /\ At(p, i) <= hi THEN While(p, i + 1, lo, hi) ELSE i

Opener(p, i) == (At(p, i) = 27 /\ At(p, i + 1) = 91) \/ (At(p, i) = 194 /\ At(p, i + 1) = 155)
\* the control sequence that starts at p[i], up to before to; final byte f, or
\* -1 if it goes on beyond the end, or -2 if it is malformed
NoSeq == [is |-> FALSE, to |-> 0, f |-> -2, b |-> 0, i |-> 0]
SeqAt(p, i) ==
  IF ~Opener(p, i) THEN NoSeq
  ELSE LET a == While(p, i + 2, 48, 63)
           z == While(p, a, 32, 47)
           f == At(p, z) IN
       [is |-> TRUE, to |-> z + 1, f |-> IF f = -1 \/ (f >= 64 /\ f <= 126) THEN f ELSE -2, b |-> a, i |-> z]
IsSgr(p, i, s) == s.is /\ s.f = 109 /\ s.i = s.b /\ While(p, i + 2, 48, 59) = s.b /\ \A k \in i + 2 .. s.b - 1 : p[k] # 58

\* parameters of the SGR sequence in p[i] .. p[b-1]; -1 is a missing one
RECURSIVE Params(_, _, _, _)
Params(p, i, b, n) ==
  IF i >= b THEN <<n>>
  ELSE IF p[i] = 59 THEN <<n>> \o Params(p, i + 1, b, -1)
  ELSE Params(p, i + 1, b, IF n < 0 THEN p[i] - 48 ELSE IF n > 99999 THEN n ELSE n * 10 + p[i] - 48)
SgrParams(p, i, s) == IF s.b = i + 2 THEN <<>> ELSE Params(p, i + 2, s.b, -1)

\* only parameters that attributes represent
Byte(n) == n >= 0 /\ n <= 255
RECURSIVE Plain(_, _)
Plain(ps, i) ==
  IF i > Len(ps) THEN TRUE
  ELSE IF ps[i] \in {0, 1, 2, 3, 4, 7, 8} \cup 30 .. 37 \cup 40 .. 47 \cup 90 .. 97 \cup 100 .. 107 THEN Plain(ps, i + 1)
  ELSE /\ ps[i] \in {38, 48} /\ i + 2 <= Len(ps)
       /\ IF ps[i + 1] = 5 THEN Byte(ps[i + 2]) /\ Plain(ps, i + 3)
          ELSE ps[i + 1] = 2 /\ i + 4 <= Len(ps) /\ (\A k \in 2 .. 4 : Byte(ps[i + k])) /\ Plain(ps, i + 5)

Probes == {AttrZero, <<63, RGBBASE + 65793, RGBBASE + 131586>>}
Legacy(c) == c >= 0 /\ c <= 255
SetsPalette(ps) == \E s \in Probes : LET a == ApplySgr(s, ps) IN Legacy(a[2]) \/ Legacy(a[3])
Deep(p8, c) == IF Legacy(c) THEN p8[c + 1] ELSE c
SameIn24(p8, ps, qs) ==
  \A s \in Probes : LET a == ApplySgr(s, ps) IN ApplySgr(s, qs) = <<a[1], Deep(p8, a[2]), Deep(p8, a[3])>>

Slice(p, i, j) == SubSeq(p, i, j - 1)
\* are sequences left open: "no", in a "str"ing, or after something "bad"
Opens(p, i) == (At(p, i) = 27 /\ At(p, i + 1) \in {80, 88, 93, 94, 95}) \/ (At(p, i) = 194 /\ At(p, i + 1) \in {144, 152, 157, 158, 159})
Shuts(p, i) == (At(p, i) = 27 /\ At(p, i + 1) = 92) \/ (At(p, i) = 194 /\ At(p, i + 1) = 156)

RECURSIVE Walk(_, _, _, _, _, _)
Walk(p8, p, o, i, j, open) ==
  IF i > Len(p) THEN j > Len(o)
  ELSE IF i + 99 <= Len(p) /\ j + 99 <= Len(o) /\ \A k \in 0 .. 99 : p[i + k] \notin {27, 194} /\ p[i + k] = o[j + k]
  THEN Walk(p8, p, o, i + 100, j + 100, open) \* plain text
  ELSE LET s == SeqAt(p, i) IN
    IF s.is /\ s.f >= 0
    THEN LET n == s.to - i IN
         IF /\ j + n - 1 <= Len(o) /\ Slice(o, j, j + n) = Slice(p, i, s.to)
            /\ \/ ~IsSgr(p, i, s) \/ open # "no"
               \/ LET ps == SgrParams(p, i, s) IN ~Plain(ps, 1) \/ ~SetsPalette(ps)
         THEN Walk(p8, p, o, s.to, j + n, open)
         ELSE LET t == SeqAt(o, j) IN
              /\ IsSgr(p, i, s) /\ t.is /\ t.f >= 0 /\ IsSgr(o, j, t)
              /\ LET ps == SgrParams(p, i, s) IN SetsPalette(ps) /\ SameIn24(p8, ps, SgrParams(o, j, t))
              /\ Walk(p8, p, o, s.to, t.to, open)
    ELSE \/ /\ At(o, j) = p[i]
            /\ Walk(p8, p, o, i + 1, j + 1,
                    IF open = "bad" \/ (s.is /\ s.f = -2) THEN "bad"
                    ELSE IF Opens(p, i) THEN "str" ELSE IF Shuts(p, i) THEN "no" ELSE open)
         \* may go with one that cuts it short and is converted
         \/ /\ s.is /\ s.f = -2 /\ Opener(p, s.i)
            /\ Walk(p8, p, o, s.i, j, open)
To24BitOK(p8, in, out) == Walk(p8, in, out, 1, 1, "no")

\* C1 controls may count as sequences
Text(o) == SelectSeq(o, LAMBDA t : Len(t) = 1 /\ ~(t[1] >= 61184 /\ t[1] <= 61439) /\ ~(t[1] >= 128 /\ t[1] <= 159))
Flat(o) == [k \in 1 .. Len(o) |-> o[k][1]]
StripOK(in, runes) ==
  LET r == Run(Ground, in)
      want == Flat(Text(r.o))
      got == SelectSeq(runes, LAMBDA x : ~(x >= 128 /\ x <= 159)) IN
  \/ r.m.st = "x"
  \/ Len(got) >= Len(want) /\ SubSeq(got, 1, Len(want)) = want /\ (r.m = Ground => Len(got) = Len(want))

(***************************************************************************)
(* The filter as a machine that reads parts of its input: how much of what *)
(* it has is complete, and goes out; the rest waits for more.              *)
(***************************************************************************)
CONSTANTS Alphabet, MaxIn, Gen
VARIABLES fed, held, out, cuts, eof
vars == <<fed, held, out, cuts, eof>>

\* in front of what it holds: <<bytes taken, what is written for them>>, none if more is needed
Unit(p, last) ==
  LET s == SeqAt(p, 1) IN
  IF s.is
  THEN IF s.f >= 0 THEN <<s.to - 1, (IF s.f = 109 THEN <<-1>> ELSE <<>>) \o Slice(p, 1, s.to)>>
       ELSE IF s.f = -1 /\ ~last THEN <<0, <<>>>> ELSE <<1, <<p[1]>>>>
  ELSE IF p[1] \in {27, 194} /\ Len(p) = 1 /\ ~last THEN <<0, <<>>>>
  ELSE <<1, <<p[1]>>>>
RECURSIVE Pump(_, _, _)
Pump(p, o, last) ==
  IF p = <<>> THEN <<p, o>>
  ELSE LET u == Unit(p, last) IN
       IF u[1] = 0 THEN <<p, o>> ELSE Pump(SubSeq(p, u[1] + 1, Len(p)), o \o u[2], last)
Whole(p) == Pump(p, <<>>, TRUE)[2]

Init == fed = <<>> /\ held = <<>> /\ out = <<>> /\ cuts = <<>> /\ eof = FALSE
RECURSIVE Malformed(_, _)
Malformed(p, i) == IF i > Len(p) THEN FALSE ELSE (SeqAt(p, i).is /\ SeqAt(p, i).f = -2) \/ Malformed(p, i + 1)
Feed(b) == /\ ~eof /\ Len(fed) < MaxIn /\ fed' = Append(fed, b)
           /\ held' = Append(held, b) /\ UNCHANGED <<out, cuts, eof>>
Read == /\ ~eof /\ Len(fed) > (IF cuts = <<>> THEN 0 ELSE cuts[Len(cuts)])
        /\ LET r == Pump(held, out, FALSE) IN held' = r[1] /\ out' = r[2]
        /\ cuts' = Append(cuts, Len(fed)) /\ UNCHANGED <<fed, eof>>
End == /\ ~eof /\ eof' = TRUE
       /\ LET r == Pump(held, out, TRUE) IN held' = r[1] /\ out' = r[2]
       /\ UNCHANGED <<fed, cuts>>
Next == (\E b \in Alphabet : Feed(b)) \/ Read \/ End
Spec == Init /\ [][Next]_vars

\* it does not matter where the input was split
SplitFree == eof /\ ~Malformed(fed, 1) => held = <<>> /\ out = Whole(fed)
\* nothing is lost, or held back without need
Bytes(o) == SelectSeq(o, LAMBDA b : b >= 0)
Lossless == Bytes(out) \o held = fed
Prompt == (cuts # <<>> /\ cuts[Len(cuts)] = Len(fed) /\ held # <<>>) => held[1] \in {27, 194}
=============================================================================
