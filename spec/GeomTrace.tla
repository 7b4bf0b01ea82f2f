----------------------------- MODULE GeomTrace -----------------------------
(* Judges recorded point and rectangle computations. *)
EXTENDS Geom, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Init == l = 1
PtStr(x, y) == "(" \o ToString(x) \o "," \o ToString(y) \o ")"
All1(q) == \A i \in 1 .. Len(q) : q[i] >= 1
All0(q) == \A i \in 1 .. Len(q) : q[i] >= 0
Up(q) == [i \in 1 .. Len(q) |-> q[i] + 1]
Down(q) == [i \in 1 .. Len(q) |-> q[i] - 1]
\* a conversion either has to succeed, or to panic
Conv(e, ok, out) == IF ok THEN e.bad = "" /\ e.out = out ELSE e.bad # "" /\ e.bad # "hang"

Step(e) ==
  CASE e.ev = "reset" -> TRUE
    [] e.ev = "pair" ->
         LET r == e.r
             s == e.s
             d == e.d IN
         /\ e.bad = ""
         /\ e.in <=> In(r, s)
         /\ e.eq <=> SamePts(r, s)
         /\ e.ov <=> Overlaps(r, s)
         /\ SamePts(e.meet, Meet(r, s)) /\ (Empty(e.meet) => e.meet[1] = e.meet[3] /\ e.meet[2] = e.meet[4])
         /\ SamePts(e.join, Join(r, s))
         /\ e.add = Move(r, d) /\ e.sub = Move(r, <<-d[1], -d[2]>>)
         /\ e.empty <=> Empty(r)
         /\ e.canon = Canon(r)
         /\ e.size = <<r[3] - r[1], r[4] - r[2]>> /\ e.dx = e.size[1] /\ e.dy = e.size[2]
         /\ IsInset(Canon(r), e.n, e.inset)
         /\ e.str = PtStr(r[1], r[2]) \o "-" \o PtStr(r[3], r[4])
    [] e.ev = "point" ->
         LET p == e.p
             d == e.d IN
         /\ e.bad = ""
         /\ e.in <=> PtIn(p, e.r)
         /\ e.add = <<p[1] + d[1], p[2] + d[2]>> /\ e.sub = <<p[1] - d[1], p[2] - d[2]>>
         /\ e.diff = e.sub
         /\ e.mul = <<p[1] * e.k, p[2] * e.k>>
         /\ (All0(p) => e.div = <<p[1] \div e.k, p[2] \div e.k>>)
         /\ e.valid <=> All1(p)
         /\ e.eq <=> p = d
    [] e.ev = "pt" -> Conv(e, All1(e.a), e.a)
    [] e.ev = "rect" -> Conv(e, All1(e.a), Canon(e.a))
    [] e.ev = "fromp" -> Conv(e, All0(e.a), Up(e.a))
    [] e.ev = "fromr" -> Conv(e, All0(e.a), Up(e.a))
    [] e.ev = "top" -> Conv(e, All1(e.a), Down(e.a))
    [] e.ev = "tor" -> \* image rectangles are canonical
         Conv(e, All1(e.a), Canon(Down(e.a)))
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
