------------------------------ MODULE SgrTrace ------------------------------
(***************************************************************************)
(* Judges recorded calls of the SGR attribute algebra and codec.           *)
(***************************************************************************)
EXTENDS Decoder, Sgr, TLC, Json, IOUtils
LOCAL E == INSTANCE Emu

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Min8(n) == IF n > 255 THEN 255 ELSE n

\* what a terminal in state p shows after SGR parameters, or merging
AsTerminal(ps, a, p) == ApplySgr(p, ps) = Merge(p, a)

Pair(e) ==
  /\ Norm(e.merge) = Merge(e.a, e.b)
  /\ Norm(e.mdiff) = Norm(e.b) /\ Merge(e.a, e.diff) = Norm(e.b)
  /\ (~HasClear(e.a) /\ e.a = e.b) => e.zero
  /\ e.zero => (Norm(e.a) = e.b)
  /\ HasClear(e.diff) => (HasClear(e.b) \/ (\E i \in 2..3 : (e.a[i] >= 0 /\ e.b[i] < 0))
                          \/ (Norm(e.a)[1] & e.b[1]) # Norm(e.a)[1])

Enc(e) ==
  LET n == Len(e.pre)
      body == SubSeq(e.b, n + 1, Len(e.b))
      r == Run(Ground, body) IN
  /\ SubSeq(e.b, 1, n) = e.pre
  /\ body = e.cs /\ e.size = Len(body)
  /\ r.m = Ground /\ Len(r.o) = 1 /\ r.o[1][1] = CsiId(109)
  /\ LET ps == E!Nums(Tail(r.o[1])) IN
     \A i \in 1 .. Len(e.priors) :
       ApplySgr(e.priors[i], ps) = (IF e.a = AttrZero THEN AttrZero ELSE Merge(e.priors[i], e.a))
  /\ e.ok /\ e.n = e.alen
  /\ \A i \in 1 .. Len(e.priors) :
       Merge(e.priors[i], e.dec) = (IF e.a = AttrZero THEN AttrZero ELSE Merge(e.priors[i], e.a))
  /\ e.fg = e.a[2] /\ e.bg = e.a[3]
  /\ e.sansfg = <<e.a[1], -1, e.a[3]>> /\ e.sansbg = <<e.a[1], e.a[2], -1>>

Dec(e) ==
  /\ e.ok /\ e.n = Len(e.arg)
  /\ \A i \in 1 .. Len(e.priors) : AsTerminal(E!Nums(e.arg), e.dec, e.priors[i])

Comps(c) == LET k == c - RGBBASE IN <<k \div 65536, (k \div 256) % 256, k % 256>>
OfComps(t) == RGBBASE + t[1] * 65536 + t[2] * 256 + t[3]
Color(e) ==
  /\ e.c >= RGBBASE => e.rgb = Comps(e.c)
  /\ (e.c >= 16 /\ e.c < 232) => \* the color cube of xterm
       LET k == e.c - 16
           v(i) == IF i = 0 THEN 0 ELSE 55 + 40 * i IN
       e.rgb = <<v(k \div 36), v((k \div 6) % 6), v(k % 6)>>
  /\ (e.c >= 232 /\ e.c < 256) => LET g == 8 + 10 * (e.c - 232) IN e.rgb = <<g, g, g>>
  /\ e.to24 = OfComps(e.rgb) /\ e.to24x2 = e.to24 /\ e.trgb = e.rgb
  /\ e.rgba = <<e.rgb[1] * 257, e.rgb[2] * 257, e.rgb[3] * 257, 65535>>
  /\ e.back = e.to24
  /\ e.fg = e.c /\ e.bg = e.c /\ e.set = <<TRUE, TRUE, FALSE, FALSE>>
Rgba(e) == e.out = OfComps([i \in 1 .. 3 |-> Min8(e.in[i] \div 256)])

\* any bytes: an index into them, not a crash
Junk(e) == e.n >= 0 /\ e.n <= Len(e.arg)

Good(e) ==
  CASE e.ev = "reset" -> TRUE
    [] e.ev # "reset" /\ e.bad # "" -> FALSE
    [] e.ev = "pair" -> Pair(e)
    [] e.ev = "enc" -> Enc(e)
    [] e.ev = "dec" -> Dec(e)
    [] e.ev = "color" -> Color(e)
    [] e.ev = "rgba" -> Rgba(e)
    [] e.ev = "junk" -> Junk(e)

Init == l = 1
Next == l <= Len(Trace) /\ Good(Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
