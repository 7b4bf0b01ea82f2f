------------------------------ MODULE BitmapMC ------------------------------
(***************************************************************************)
(* All small bitmaps and parts of them: the bits of the braille cells are  *)
(* those of the part, every one exactly once.                              *)
(***************************************************************************)
EXTENDS Bitmap, TLC, Json, FiniteSets
CONSTANTS W, H, Gen
VARIABLES bs, r
Init ==
  /\ \E w \in 1 .. W, h \in 1 .. H : \E b \in [1 .. w * h -> 0 .. 1] : bs = <<[w |-> w, h |-> h, b |-> b]>>
  /\ r = <<0, 0, bs[1].w, bs[1].h>>
Next ==
  /\ r = <<0, 0, bs[1].w, bs[1].h>>
  /\ \E x0 \in 0 .. bs[1].w - 1, y0 \in 0 .. bs[1].h - 1 : \E x1 \in x0 + 1 .. bs[1].w, y1 \in y0 + 1 .. bs[1].h : r' = <<x0, y0, x1, y1>>
  /\ UNCHANGED bs
Spec == Init /\ [][Next]_<<bs, r>>
V == [b |-> 1, r |-> r]
RECURSIVE Ones(_)
Ones(k) == IF k = 0 THEN 0 ELSE (k % 2) + Ones(k \div 2)
RECURSIVE Sum(_)
Sum(xs) == IF xs = <<>> THEN 0 ELSE Head(xs) + Sum(Tail(xs))
Count == Cardinality({p \in (0 .. W) \X (0 .. H) : Bit(bs, V, p[1], p[2]) = 1})
Once == Count = Sum([i \in 1 .. RuneW(r) * RuneH(r) |-> Ones(Written(bs, V, <<>>)[i][1] - 10240)])
Emitted == (Gen /\ bs[1].w = W) => PrintT("@@" \o ToJson([w |-> bs[1].w, b |-> bs[1].b, r |-> r']))
=============================================================================
