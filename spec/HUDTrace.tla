------------------------------ MODULE HUDTrace ------------------------------
(* Judges recorded frames of a HUD over a client. *)
EXTENDS HUD, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, tiny
vars == <<l, s, tiny>>
Init == l = 1 /\ s = New(<<>>) /\ tiny = FALSE
Trunc(t) == IF Len(t) > 12 THEN SubSeq(t, 1, 11) \o "..." ELSE t
Fits(r, t) ==
  /\ t.k = r.k
  /\ \/ r.v = Anything
     \/ r.v = t.v
     \/ Len(r.v) > 12 /\ (t.v = Trunc(r.v) \/ Len(r.v) > 15)
  /\ r.x # "" => t.x = r.x
Flags(t, e) ==
  /\ e.vis = t.vis /\ e.td = t.td /\ e.fd = t.fd /\ e.pd = t.pd /\ e.fc = t.fc /\ e.paused = t.paused
  /\ e.timing = t.timing /\ e.stalls = t.stalls /\ e.logt = t.logt /\ e.logs = t.logs
(* the numbers shown: rates were given in fourths, all times in microseconds *)
Abs(n) == IF n < 0 THEN -n ELSE n
Rate(n, q) == Len(n) = 1 /\ Abs(4 * n[1] - q) <= 2
Tenth(n, q) == Len(n) = 1 /\ n[1] % 100 = 0 /\ Abs(n[1] - q) <= 50
Stat(e, k) ==
  LET f == [k1 \in {"estimate", "actual", "dt min", "q1", "q2", "q3", "max", "Stalls", "min t", "max t", "sum t", "% t"} |->
            CASE k1 = "estimate" -> 1 [] k1 = "actual" -> 2 [] k1 = "dt min" -> 3 [] k1 = "q1" -> 4 [] k1 = "q2" -> 5
              [] k1 = "q3" -> 6 [] k1 = "max" -> 7 [] k1 = "Stalls" -> 8 [] k1 = "min t" -> 9 [] k1 = "max t" -> 10
              [] k1 = "sum t" -> 11 [] k1 = "% t" -> 12] IN e.st[f[k]]
NumOK(e, k, n) ==
  CASE k \in {"estimate", "actual"} -> Rate(n, Stat(e, k))
    [] k \in {"dt min", "q1", "q2", "q3", "max"} -> Tenth(n, Stat(e, k))
    [] k \in {"Stalls", "min t", "max t", "sum t", "% t"} -> n = <<Stat(e, k)>>
    [] k = "dt" -> Tenth(n, e.dt)
    [] OTHER -> TRUE
SegOK(t, e, k, n) ==
  CASE k = "time" -> n = e.t
    [] k = "fps" -> Rate(n, e.st[IF t.timing \/ t.logt THEN 2 ELSE 1])
    [] k = "size" -> n = e.size
    [] k = "mouse" -> n = e.mouse \/ e.mouse = <<>>
    [] OTHER -> TRUE
Shows(t, e) ==
  LET rows == Shown(t) IN
  /\ Len(rows) = Len(e.rows)
  /\ \A i \in 1 .. Len(rows) : Fits(rows[i], e.rows[i]) /\ NumOK(e, rows[i].k, e.rows[i].n)
  /\ \A i \in 1 .. Len(e.segs) : SegOK(t, e, e.segs[i], e.segn[i])
  \* segments at the top
  /\ e.segs = IF t.vis THEN <<"time", "fps", IF t.on = {} THEN "off" ELSE "on", "size", "W", "mouse">> ELSE <<>>
  \* the text edited
  /\ IF t.act \in DOMAIN t.file /\ HasRow(t, t.act) THEN e.edit = t.act /\ e.txt = t.txt /\ e.cur = t.cur
     ELSE e.edit = ""
  /\ {e.disk[i] : i \in 1 .. Len(e.disk)} = t.disk
\* what the click hit, as seen in the frame before
Hit(e) == IF ~s.vis \/ e.eaten THEN {s}
          ELSE Click(s, e.c, e.what, e.n)
RECURSIVE TypedAll(_, _, _)
TypedAll(t, q, i) == IF i > Len(q) THEN t ELSE TypedAll(Typed(t, q[i]), q, i + 1)
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = New(e.all) /\ tiny' = e.tiny
       [] e.ev = "frame" ->
          /\ e.bad = "" /\ tiny' = tiny
          \* the client has all input but for the key of the HUD, and its drawing is kept
          /\ e.seen = [i \in 1 .. Len(e.kinds) |-> IF e.kinds[i] = 99 THEN 0 ELSE e.kinds[i]]
          /\ e.dirt = 0 /\ (e.edit = "" /\ ~(tiny /\ e.vis) /\ e.op \in {"idle", "key"} => e.user[1] = e.user[2])
          /\ IF tiny
             THEN /\ e.vis = Keys(s, e.k).vis
                  /\ s' = [s EXCEPT !.vis = e.vis]
             ELSE \E t \in CASE e.op = "click" -> Hit(e)
                              [] e.op = "key" -> {Keys(s, e.k)}
                              [] e.op = "type" -> {IF s.vis THEN TypedAll(s, e.q, 1) ELSE s}
                              [] OTHER -> {s} :
                    /\ Flags(t, e)
                    \* what is drawn in the frame of an action may be as it was
                    /\ (e.op \in {"idle", "key"} => Shows(t, e))
                    /\ s' = t
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
