----------------------------- MODULE CursorTerm -----------------------------
(***************************************************************************)
(* What a terminal large enough that no margin but the top left matters    *)
(* does with a stream of outs <<id, arg...>> (see Decoder.tla): cursor     *)
(* position, attribute, visibility, and what was printed where.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Sgr
LOCAL E == INSTANCE Emu

NewCT(x, y, a, v) == [x |-> x, y |-> y, a |-> a, v |-> v, p |-> <<>>]

LOCAL Id(b) == 61312 + b
LOCAL AtLeast1(n) == IF n < 1 THEN 1 ELSE n
CTMove(t, x, y) == [t EXCEPT !.x = AtLeast1(x), !.y = AtLeast1(y)]

CTOut(t, o) ==
  LET e == o[1]
      a == Tail(o) IN
  IF E!IsEscapeId(e)
  THEN IF e \in {Id(104), Id(108)} /\ Len(a) > 1 /\ a[1] = 63
       THEN LET ns == E!Nums(Tail(a)) IN
            IF 25 \in {ns[i] : i \in 1 .. Len(ns)} THEN [t EXCEPT !.v = (e = Id(104))] ELSE t
       ELSE IF ~E!Plain(a) THEN t
       ELSE LET ns == E!Nums(a)
                n == IF ns = <<>> \/ ns[1] < 1 THEN 1 ELSE ns[1] IN
            CASE e = Id(65) -> CTMove(t, t.x, t.y - n)
              [] e = Id(66) -> CTMove(t, t.x, t.y + n)
              [] e = Id(67) -> CTMove(t, t.x + n, t.y)
              [] e = Id(68) -> CTMove(t, t.x - n, t.y)
              [] e = Id(72) -> CTMove(t, IF Len(ns) < 2 THEN 1 ELSE ns[2], IF ns = <<>> THEN 1 ELSE ns[1])
              [] e = Id(109) -> [t EXCEPT !.a = ApplySgr(@, ns)]
              [] OTHER -> t
  ELSE IF e = 10 THEN [t EXCEPT !.y = @ + 1]
  ELSE IF e = 13 THEN [t EXCEPT !.x = 1]
  ELSE IF E!NotGraphic(e) THEN t
  ELSE [t EXCEPT !.p = Append(@, <<e, t.x, t.y>> \o t.a), !.x = @ + 1]

RECURSIVE CTRun(_, _)
CTRun(t, os) == IF os = <<>> THEN t ELSE CTRun(CTOut(t, Head(os)), Tail(os))
=============================================================================
