--------------------------- MODULE TelemetryTrace ---------------------------
(***************************************************************************)
(* Judges what a platform's Telemetry says at every frame, and what was    *)
(* logged, against the times of the frames.  Durations are nanoseconds, at *)
(* most Cap; t is in microseconds; rates are in thousandths.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Cap == 2000000000
Sat(a, b) == IF a > Cap - b THEN Cap ELSE a + b
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Sat(Head(q), Sum(Tail(q)))
Least(q) == CHOOSE x \in {q[i] : i \in 1 .. Len(q)} : \A i \in 1 .. Len(q) : x <= q[i]
Most(q) == CHOOSE x \in {q[i] : i \in 1 .. Len(q)} : \A i \in 1 .. Len(q) : x >= q[i]
Abs(x) == IF x < 0 THEN 0 - x ELSE x
NoStats == [fps |-> 0, el |-> 0, min |-> 0, max |-> 0, q1 |-> 0, q2 |-> 0, q3 |-> 0, zero |-> TRUE]
NoStalls == [n |-> 0, min |-> 0, max |-> 0, sum |-> 0, pct |-> 0, zero |-> TRUE]
\* n: frames of a window, rate: frames of the estimate; te, lt, se, ls: timing and stalls,
\* collected and logged; w: deltas of this window; fresh: no window before; gap: since the
\* last measured frame; rates; tm, st: statistics; sgap: since those of stalls; held: what
\* the longest stall took at least; wins, bats: to be logged; ft: times of frames
Start(e) == [n |-> e.n, rate |-> e.rate, te |-> e.te, lt |-> e.lt, se |-> FALSE, ls |-> FALSE,
             w |-> <<>>, fresh |-> TRUE, gap |-> 0, rates |-> <<>>, tm |-> NoStats, st |-> NoStalls,
             sgap |-> 0, held |-> 0, flushed |-> 0, wins |-> <<>>, bats |-> <<>>, ft |-> <<>>, big |-> 0]
Init == l = 1 /\ s = <<>>

Rate(d) == IF d < 0 \/ d >= Cap THEN 0
           ELSE IF d < 1000 THEN Cap
           ELSE IF d < 2000000 THEN (1000000000 \div d) * 1000 ELSE 1000000000 \div (d \div 1000)
Near(a, b, tol) == a >= Cap \/ b >= Cap \/ Abs(a - b) <= tol
Estimate(e, rs) ==
  LET sum == Sum(rs) IN sum >= Cap \/ Near(e.est, sum \div s.rate, (sum \div s.rate) \div 100 + 50)
\* v is about the k-th quarter of q
Quarter(q, v, k) ==
  LET below == Cardinality({i \in 1 .. Len(q) : q[i] < v})
      upto == Cardinality({i \in 1 .. Len(q) : q[i] <= v}) IN
  4 * below <= k * Len(q) + 12 /\ 4 * upto >= k * Len(q) - 12 /\ upto > below
Window(e, q) ==
  LET m == e.tm IN
  /\ e.age = 0 /\ ~m.zero
  /\ m.el = Sum(q) /\ m.max = Most(q)
  /\ q[1] # 0 => m.min = Least(q)
  /\ m.q1 <= m.q2 /\ m.q2 <= m.q3 /\ m.q3 <= m.max
  /\ Quarter(q, m.q1, 1) /\ Quarter(q, m.q2, 2) /\ Quarter(q, m.q3, 3)
  \* frames per second; not much can be said of the first
  /\ q[1] = 0 \/ m.el >= Cap
     \/ LET ms == (m.el + 500000) \div 1000000 IN
        ms < 20 \/ m.fps > 500000 \/ Abs(m.fps * ms - s.n * 1000000) <= m.fps + ms
Batch(e) ==
  LET b == e.st IN
  /\ ~b.zero /\ b.n >= 0 /\ b.n <= s.n /\ b.n <= s.flushed
  /\ IF b.n = 0 THEN b.min = 0 /\ b.max = 0 /\ b.sum = 0
     ELSE b.min <= b.max /\ b.max <= b.sum /\ (b.n = 1 => b.min = b.sum) /\ b.sum \div b.n >= b.min /\ (b.sum - 1) \div b.n <= b.max
  /\ b.max >= s.held
  /\ LET over == Sat(s.sgap, e.dt) IN
     IF s.st.zero THEN b.pct = 0
     ELSE over >= Cap \/ b.sum >= Cap \/ over < 1000000 \/ Abs(b.pct - ((b.sum \div 1000) * 1000) \div (over \div 1000)) <= 2 + b.pct \div 100

Frame(e) ==
  LET measured == s.te \/ s.lt
      dt == IF e.dt < 0 THEN 0 ELSE e.dt
      d == IF s.fresh /\ s.w = <<>> THEN 0 ELSE Sat(s.gap, dt)
      w == Append(s.w, d)
      full == measured /\ Len(w) = s.n
      rs == LET q == Append(s.rates, Rate(e.ldt)) IN IF Len(q) > s.rate THEN Tail(q) ELSE q
      batch == measured /\ s.se /\ e.sage = 0 /\ (full \/ e.st.n = s.n) IN
  /\ e.te = s.te /\ e.lt = s.lt /\ e.se = s.se /\ e.ls = s.ls
  /\ Estimate(e, rs)
  /\ IF full THEN Window(e, w) ELSE e.tm = s.tm
  /\ e.fps = (IF measured THEN e.tm.fps ELSE e.est)
  /\ IF batch THEN Batch(e) ELSE e.st = s.st
  /\ full /\ s.se => batch
  /\ s' = [s EXCEPT !.w = IF full THEN <<>> ELSE IF measured THEN w ELSE @,
                    !.gap = IF measured THEN 0 ELSE Sat(@, dt),
                    !.fresh = @ /\ ~full,
                    !.rates = rs, !.tm = e.tm, !.st = e.st,
                    !.sgap = IF batch THEN 0 ELSE Sat(@, dt),
                    !.held = IF batch THEN 0 ELSE @,
                    !.flushed = IF batch THEN 1 ELSE @ + 1,
                    !.wins = IF full /\ s.lt THEN Append(@, SortSeq(w, <)) ELSE @,
                    !.bats = IF batch /\ s.ls THEN Append(@, e.st) ELSE @,
                    !.ft = Append(@, e.t), !.big = IF dt > @ THEN dt ELSE @]
Put(e) ==
  /\ e.bad = ""
  /\ s' = CASE e.what = "timing" ->
                 IF s.te /\ ~e.v /\ ~s.lt THEN [s EXCEPT !.te = FALSE, !.w = <<>>, !.fresh = TRUE, !.tm = NoStats]
                 ELSE [s EXCEPT !.te = e.v]
            [] e.what = "logt" -> [s EXCEPT !.lt = e.v]
            [] e.what = "logs" -> [s EXCEPT !.ls = e.v]
            [] e.what = "stalls" -> [s EXCEPT !.se = e.v, !.held = 0, !.flushed = 1, !.st = IF e.v THEN @ ELSE NoStalls]

\* what was logged: i-th of recs is the at-th or later of what there was to log
RECURSIVE Found(_, _, _, _)
Found(recs, i, at, n) ==
  IF i > Len(recs) THEN TRUE
  ELSE LET P == {j \in at .. n : IF recs[i].name = "timing" THEN s.wins[j] = SortSeq(recs[i].data, <)
                                  ELSE LET b == s.bats[j] q == recs[i].data IN
                                       IF q = <<>> THEN b.n = 0
                                       ELSE b.n = Len(q) /\ b.min = Least(q) /\ b.max = Most(q) /\ b.sum = Sum(q)} IN
       P # {} /\ Found(recs, i + 1, 1 + CHOOSE j \in P : \A k \in P : j <= k, n)
Kind(recs, k) == SelectSeq(recs, LAMBDA r : r.name = k)
\* resource usage, of about the last 1, 2, .. 8 seconds
Usage(recs) ==
  \A i \in 1 .. Len(recs) :
    LET r == recs[i] q == r.data n == Len(q)
        j == CHOOSE i1 \in 1 .. Len(s.ft) : s.ft[i1] = r.t
        first == IF j > 599 THEN j - 598 ELSE 1 \* the last 600 are kept
        age == r.t - s.ft[first] - 2000 IN
    /\ i > 1 => r.t - recs[i - 1].t >= 1000000 - 2000
    /\ n >= 1 /\ n <= 8
    /\ \A k \in 1 .. n :
         /\ q[k][1] > 0 /\ q[k][2] >= 0 /\ q[k][3] >= 0
         /\ k > 1 => q[k][1] > q[k - 1][1] /\ q[k][2] >= q[k - 1][2] /\ q[k][3] >= q[k - 1][3]
         /\ s.big < 400000000 => /\ q[k][1] <= k * 1000000 + 2000
                                 /\ k < n => q[k][1] >= k * 1000000 - s.big \div 1000 - 2000
         /\ \E i2 \in 1 .. Len(s.ft) : Abs(r.t - s.ft[i2] - q[k][1]) <= 2000
    /\ s.big < 400000000 /\ age > 0 => n >= (IF age > 8000000 THEN 8 ELSE age \div 1000000)
Logged(e) ==
  LET ts == Kind(e.recs, "timing") ss == Kind(e.recs, "stalls") us == Kind(e.recs, "rusage") IN
  /\ Len(ts) + Len(ss) + Len(us) = Len(e.recs)
  /\ Found(ts, 1, 1, Len(s.wins)) /\ Found(ss, 1, 1, Len(s.bats))
  \* the last is there in the end
  /\ s.wins # <<>> => ts # <<>> /\ SortSeq(ts[Len(ts)].data, <) = s.wins[Len(s.wins)]
  /\ s.bats # <<>> => ss # <<>> /\ Found(<<ss[Len(ss)]>>, 1, Len(s.bats), Len(s.bats))
  /\ e.bad = "" /\ \A i \in 1 .. Len(us) : \E j \in 1 .. Len(s.ft) : s.ft[j] = us[i].t
  /\ e.file => Usage(us)
  /\ s' = s
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = IF "raced" \in DOMAIN e THEN <<>> ELSE Start(e)
       [] e.ev = "frame" -> Frame(e)
       [] e.ev = "set" -> Put(e)
       [] e.ev = "held" -> s' = [s EXCEPT !.held = IF s.se /\ s.flushed <= s.n /\ e.ns > @ THEN e.ns ELSE @]
       [] e.ev = "ran" -> e.bad = "" /\ e.err = e.want /\ s' = s
       [] e.ev = "logged" -> Logged(e)
       [] e.ev = "race" -> e.n = 0 /\ s' = s
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
