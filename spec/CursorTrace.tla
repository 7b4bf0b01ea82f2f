---------------------------- MODULE CursorTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of VirtualCursor: what it delivers leaves    *)
(* the terminal exactly where, and how, its user asked; and what it tracks *)
(* is true.                                                                *)
(***************************************************************************)
EXTENDS CursorTerm, Decoder, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,
  term,  \* the terminal, having received what was delivered
  tm,    \* its decoder
  want,  \* what it would be, had it received everything
  m,     \* decoder of what was written
  ka, kv, \* were attribute, visibility set since nothing was known
  rk     \* the same of what was last delivered
vars == <<l, term, tm, want, m, ka, kv, rk>>

Zero == NewCT(1, 1, AttrZero, TRUE)
Init == l = 1 /\ term = Zero /\ want = Zero /\ tm = Ground /\ m = Ground /\ ka = FALSE /\ kv = FALSE /\ rk = <<FALSE, FALSE>>

Blank(t) == [t EXCEPT !.p = <<>>]

Tracked(c, t, aa, vv) ==
  /\ (c.x >= 1 /\ c.y >= 1) => (c.x = t.x /\ c.y = t.y)
  /\ aa => Norm(c.a) = t.a
  /\ vv => c.v = t.v
Good(e) == e.bad = "" /\ Tracked(e.cur, want', ka', kv')

Reset(e) ==
  /\ e.ev = "reset"
  /\ term' = NewCT(e.x, e.y, e.a, e.v) /\ want' = term'
  /\ tm' = Ground /\ m' = Ground /\ ka' = FALSE /\ kv' = FALSE /\ rk' = <<FALSE, FALSE>>

\* a terminal abandons a control sequence for the next
RECURSIVE TermRun(_, _, _, _)
TermRun(mm, bs, i, o) ==
  IF i > Len(bs) THEN R(mm, o)
  ELSE LET n == IF mm.st \in {"c", "i"} /\ bs[i] = ESCB THEN R([Ground EXCEPT !.st = "e"], <<>>) ELSE Step(mm, bs[i]) IN
       TermRun(n.m, bs, i + 1, o \o n.o)
\* setting may write something, which cuts short whatever was being written
MayCut == m' \in {m, Ground}

To(e) == /\ e.ev = "to" /\ want' = [want EXCEPT !.x = e.px, !.y = e.py]
         /\ UNCHANGED <<term, tm, m, ka, kv, rk>>
         /\ e.cur.x = e.px /\ e.cur.y = e.py /\ Good(e)
SetSgr(e) == /\ e.ev = "sgr" /\ want' = [want EXCEPT !.a = Norm(e.attrs[Len(e.attrs)])]
             /\ MayCut /\ ka' = TRUE /\ UNCHANGED <<term, tm, kv, rk>> /\ Good(e)
Vis(e) == /\ e.ev \in {"show", "hide"} /\ want' = [want EXCEPT !.v = (e.ev = "show")]
          /\ MayCut /\ kv' = TRUE /\ UNCHANGED <<term, tm, ka, rk>> /\ Good(e)
Apply(e) ==
  /\ e.ev = "apply"
  /\ LET on == e.pv /\ e.px >= 1 /\ e.py >= 1 IN
     /\ want' = IF on THEN [want EXCEPT !.x = e.px, !.y = e.py, !.a = Norm(e.pa), !.v = TRUE] ELSE [want EXCEPT !.v = FALSE]
     /\ ka' = (ka \/ on)
  /\ kv' = TRUE /\ UNCHANGED <<term, tm, m, rk>> /\ Good(e)
Write(e) ==
  /\ e.ev = "write" /\ e.n = Len(e.b)
  /\ LET r == Run(m, e.b) IN m' = r.m /\ want' = CTRun(want, r.o)
  /\ UNCHANGED <<term, tm, ka, kv, rk>> /\ Good(e)
Flush(e) ==
  /\ e.ev = "flush" /\ e.n = Len(e.got)
  /\ LET r == TermRun(tm, e.got, 1, <<>>)
         t == CTRun(term, r.o) IN
     CASE e.res = "ok" ->
            /\ r.m = m /\ t = want
            /\ term' = Blank(t) /\ want' = Blank(want) /\ tm' = r.m /\ rk' = <<ka, kv>>
            /\ UNCHANGED <<m, ka, kv>>
            /\ Tracked(e.real, term', ka, kv)
       [] e.res = "again" ->
            /\ term' = t /\ tm' = r.m /\ rk' = <<FALSE, FALSE>>
            /\ UNCHANGED <<want, m, ka, kv>>
            /\ e.real.x = 0 /\ e.real.y = 0
       [] e.res = "err" -> \* nothing is known, and the rest is gone
            /\ term' = Blank(t) /\ want' = term' /\ tm' = Ground /\ m' = Ground
            /\ ka' = FALSE /\ kv' = FALSE /\ rk' = <<FALSE, FALSE>>
            /\ e.real.x = 0 /\ e.real.y = 0 /\ e.cur.x = 0 /\ e.cur.y = 0
  /\ Good(e)
Drop(e) ==
  /\ e.ev = "drop"
  /\ term' = Blank(term) /\ want' = term' /\ tm' = Ground /\ m' = Ground
  /\ ka' = rk[1] /\ kv' = rk[2] /\ UNCHANGED rk
  /\ e.cur = e.real /\ Good(e)

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN
     Reset(e) \/ To(e) \/ SetSgr(e) \/ Vis(e) \/ Apply(e) \/ Write(e) \/ Flush(e) \/ Drop(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
