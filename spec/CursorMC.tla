------------------------------ MODULE CursorMC ------------------------------
(***************************************************************************)
(* Design model of the virtual cursor: tracks position, attribute and      *)
(* visibility of a terminal cursor of which nothing is known at first, and *)
(* writes the least that is needed to change it.  Output is delivered in   *)
(* order, or cut by an error.  Checks that what is tracked is true, and    *)
(* that the terminal ends up where it was asked to.                        *)
(***************************************************************************)
EXTENDS CursorTerm, TLC, Json

CONSTANTS MaxLen, Gen

VARIABLES c, real, out, term, want, hist

Unknown == [x |-> 0, y |-> 0, a |-> AttrZero, ak |-> FALSE, v |-> FALSE, vk |-> FALSE]
Valid(k) == k.x >= 1 /\ k.y >= 1
Id(b) == 61312 + b
D(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
SgrBytes(a) == \* an absolute attribute
  <<48>> \o (IF a[1] % 2 = 1 THEN <<59, 49>> ELSE <<>>) \o (IF a[2] >= 0 THEN <<59, 51, 48 + a[2]>> ELSE <<>>)

\* outs to go from k to a position
ToOuts(k, x, y) ==
  IF ~Valid(k) THEN <<<<Id(72)>> \o D(y) \o <<59>> \o D(x)>>
  ELSE IF y = k.y + 1 /\ x = 1 THEN <<<<13>>, <<10>>>>
  ELSE IF x # k.x /\ y # k.y THEN <<<<Id(72)>> \o D(y) \o <<59>> \o D(x)>>
  ELSE IF x > k.x THEN <<<<Id(67)>> \o D(x - k.x)>>
  ELSE IF x < k.x THEN <<<<Id(68)>> \o D(k.x - x)>>
  ELSE IF y > k.y THEN <<<<Id(66)>> \o D(y - k.y)>>
  ELSE IF y < k.y THEN <<<<Id(65)>> \o D(k.y - y)>>
  ELSE <<>>
SgrOuts(k, a) == IF k.ak /\ k.a = a THEN <<>> ELSE <<<<Id(109)>> \o SgrBytes(a)>>
VisOuts(k, v) == IF k.vk /\ k.v = v THEN <<>> ELSE <<<<Id(IF v THEN 104 ELSE 108), 63, 50, 53>>>>

\* what is known after an out was written through
Track(k, o) ==
  LET t == CTOut(NewCT(IF k.x < 1 THEN 1000 ELSE k.x, IF k.y < 1 THEN 1000 ELSE k.y, k.a, k.v), o)
      n == IF Len(o) = 2 THEN o[2] - 48 ELSE 1 IN
  CASE o[1] = Id(72) -> [k EXCEPT !.x = t.x, !.y = t.y]
    [] o[1] = 13 -> [k EXCEPT !.x = 1]
    [] o[1] = Id(65) -> [k EXCEPT !.y = IF k.y < 1 \/ k.y - n < 1 THEN 0 ELSE k.y - n]
    [] o[1] = Id(68) -> [k EXCEPT !.x = IF k.x < 1 \/ k.x - n < 1 THEN 0 ELSE k.x - n]
    [] OTHER -> [k EXCEPT !.x = IF k.x < 1 THEN 0 ELSE t.x, !.y = IF k.y < 1 THEN 0 ELSE t.y, !.a = t.a, !.v = t.v]

Writes == {
  [b |-> <<97>>, o |-> <<97>>], [b |-> <<10>>, o |-> <<10>>], [b |-> <<13>>, o |-> <<13>>],
  [b |-> <<27, 91, 50, 65>>, o |-> <<Id(65), 50>>], [b |-> <<27, 91, 66>>, o |-> <<Id(66)>>],
  [b |-> <<27, 91, 51, 68>>, o |-> <<Id(68), 51>>], [b |-> <<27, 91, 67>>, o |-> <<Id(67)>>],
  [b |-> <<27, 91, 49, 109>>, o |-> <<Id(109), 49>>],
  [b |-> <<27, 91, 63, 50, 53, 108>>, o |-> <<Id(108), 63, 50, 53>>] }
Points == {<<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 2>>}
Attrs == {AttrZero, <<1, -1, -1>>, <<0, 3, -1>>}

Init == /\ c = Unknown /\ real = Unknown /\ out = <<>>
        /\ term = NewCT(3, 2, <<4, 5, 6>>, TRUE) /\ want = term /\ hist = <<>>

H(o) == hist' = Append(hist, o)
To(p) == /\ out' = out \o ToOuts(c, p[1], p[2])
         /\ c' = [c EXCEPT !.x = p[1], !.y = p[2]] /\ want' = [want EXCEPT !.x = p[1], !.y = p[2]]
         /\ H([op |-> "to", x |-> p[1], y |-> p[2]]) /\ UNCHANGED <<real, term>>
SetSgr(a) == /\ out' = out \o SgrOuts(c, a)
             /\ c' = [c EXCEPT !.a = a, !.ak = TRUE] /\ want' = [want EXCEPT !.a = a]
             /\ H([op |-> "sgr", a |-> a]) /\ UNCHANGED <<real, term>>
Vis(v) == /\ out' = out \o VisOuts(c, v)
          /\ c' = [c EXCEPT !.v = v, !.vk = TRUE] /\ want' = [want EXCEPT !.v = v]
          /\ H([op |-> IF v THEN "show" ELSE "hide"]) /\ UNCHANGED <<real, term>>
Write(w) == /\ out' = Append(out, w.o)
            /\ c' = Track(c, w.o) /\ want' = CTOut(want, w.o)
            /\ H([op |-> "write", b |-> w.b]) /\ UNCHANGED <<real, term>>
Flush == /\ out # <<>>
         /\ term' = [CTRun(term, out) EXCEPT !.p = <<>>] /\ want' = [want EXCEPT !.p = <<>>] /\ out' = <<>>
         /\ Assert([CTRun(term, out) EXCEPT !.p = <<>>] = [want EXCEPT !.p = <<>>] /\ CTRun(term, out).p = want.p, <<"not where asked", want>>)
         /\ real' = c /\ H([op |-> "flush", k |-> -1, err |-> ""]) /\ UNCHANGED c
\* part is delivered; the rest stays, and nothing is known of the real cursor until it is
Again(k) == /\ k < Len(out)
            /\ term' = CTRun(term, SubSeq(out, 1, k)) /\ out' = SubSeq(out, k + 1, Len(out))
            /\ real' = Unknown /\ H([op |-> "flush", k |-> k, err |-> "again"]) /\ UNCHANGED <<c, want>>
Fail(k) == /\ k < Len(out)
           /\ term' = [CTRun(term, SubSeq(out, 1, k)) EXCEPT !.p = <<>>] /\ want' = term' /\ out' = <<>>
           /\ real' = Unknown /\ c' = Unknown /\ H([op |-> "flush", k |-> k, err |-> "hard"])
Reset == /\ out # <<>> /\ out' = <<>> /\ c' = real
         /\ term' = [term EXCEPT !.p = <<>>] /\ want' = term' /\ H([op |-> "reset"]) /\ UNCHANGED real

Next == /\ Len(hist) < MaxLen
        /\ \/ \E p \in Points : To(p)
           \/ \E a \in Attrs : SetSgr(a)
           \/ \E v \in BOOLEAN : Vis(v)
           \/ \E w \in Writes : Write(w)
           \/ Flush \/ Reset
           \/ \E k \in 0 .. 2 : Again(k) \/ Fail(k)
Spec == Init /\ [][Next]_<<c, real, out, term, want, hist>>

\* what is tracked is true of the terminal once it gets the output
Tracked(k, t) ==
  /\ k.x >= 1 => k.x = t.x
  /\ k.y >= 1 => k.y = t.y
  /\ k.ak => k.a = t.a
  /\ k.vk => k.v = t.v
True1 == Tracked(c, want) /\ (out = <<>> \/ Tracked(real, term) \/ real = Unknown) /\ (out = <<>> => term = want)
View == <<c, real, out, term, want, Len(hist)>>
Emitted == Gen => PrintT("@@" \o ToJson(hist'))
=============================================================================
