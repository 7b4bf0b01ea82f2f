---------------------------- MODULE BitmapTrace ----------------------------
(* Judges recorded uses of bitmaps. *)
EXTENDS Bitmap, TLC, Json, IOUtils
T == INSTANCE Terminal
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bs, vs
vars == <<l, bs, vs>>
Init == l = 1 /\ bs = <<>> /\ vs = <<>>
Empty(r) == r[3] <= r[1] \/ r[4] <= r[2]
New(b) ==
  LET nb == Append(bs, b) IN
  bs' = nb /\ vs' = Append(vs, BFull(nb, Len(nb)))
\* an attribute is given to what is drawn without any style, or not
Unstyled(sts) == G!Opaque(sts)
Plainly(c) == [c EXCEPT ![2] = 0, ![3] = -1, ![4] = -1]

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bs' = <<>> /\ vs' = <<>>
     ELSE IF e.ev = "parse"
     THEN LET ok == Parses(e.set, e.lines) IN
          /\ IF e.must THEN (e.bad = "") <=> ok ELSE e.bad = "" /\ (e.err <=> ~ok)
          /\ ok => /\ e.d = Cat([i \in 1 .. Len(e.lines) |-> Bits(e.set, e.lines[i])])
                   /\ e.stride = (IF e.lines = <<>> THEN 0 ELSE Len(e.lines[1]) \div Len(e.set))
          /\ UNCHANGED <<bs, vs>>
     ELSE
     /\ e.bad = ""
     /\ CASE e.ev = "load" -> New(Loaded(e.stride, e.d)) /\ vs'[Len(vs')].r = e.r
          [] e.ev = "resize" -> New([w |-> e.w, h |-> e.h, b |-> [i \in 1 .. e.w * e.h |-> 0]]) /\ vs'[Len(vs')].r = e.r
          [] e.ev = "sub" ->
               LET v == vs[e.i]
                   u == CASE e.kind = "rect" -> G!SubRect(v, e.a)
                          [] e.kind = "at" -> G!SubAt(v, e.a[1], e.a[2])
                          [] e.kind = "size" -> G!SubSize(v, e.a[1], e.a[2]) IN
               /\ IF u.b = 0 THEN Empty(e.r) ELSE e.r = u.r
               /\ vs' = Append(vs, u) /\ UNCHANGED bs
          [] e.ev = "get" -> e.out = Bit(bs, vs[e.i], e.x, e.y) /\ UNCHANGED <<bs, vs>>
          [] e.ev = "set" -> bs' = BitSet(bs, vs[e.i], e.x, e.y, e.k) /\ UNCHANGED vs
          [] e.ev = "rune" -> \* anchored at a point of it
               /\ e.out = Braille(bs, vs[e.i], e.x, e.y)
               /\ UNCHANGED <<bs, vs>>
          [] e.ev = "size" ->
               /\ e.out = <<RuneW(vs[e.i].r), RuneH(vs[e.i].r)>>
               /\ UNCHANGED <<bs, vs>>
          [] e.ev = "draw" ->
               LET g == DrawInto([w |-> e.w, h |-> e.h, c |-> e.c], bs, vs[e.i], e.st) IN
               /\ IF Unstyled(e.st)
                  THEN \A i \in 1 .. Len(e.c) : e.out[i] = g.c[i] \/
                         (g.c[i][1] = e.out[i][1] /\ e.out[i] = Plainly(g.c[i]) /\ BitIn(vs[e.i], vs[e.i].r[1] + 2 * ((i - 1) % e.w), vs[e.i].r[2] + 4 * ((i - 1) \div e.w)))
                  ELSE e.out = g.c
               /\ UNCHANGED <<bs, vs>>
          [] e.ev = "write" ->
               LET v == vs[e.i]
                   w == RuneW(v.r)
                   h == RuneH(v.r)
                   t == T!TermRun(T!NewTerm(w + 2, h + 2, T!BlankCells(w + 2, h + 2), FALSE), e.toks) IN
               /\ ~t.bad /\ e.n = e.len
               /\ T!ShowsGrid(t, w, h, Written(bs, v, e.st))
               /\ UNCHANGED <<bs, vs>>
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
