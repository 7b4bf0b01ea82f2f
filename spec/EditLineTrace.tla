--------------------------- MODULE EditLineTrace ---------------------------
(* Judges recorded executions of EditLine within a larger frame. *)
EXTENDS Events, EditLine, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Init == l = 1 /\ s = New

\* effect of one event, <<state, whether it was taken>>
Handle(t, v) ==
  IF t.st # 0 THEN <<t, FALSE>>
  ELSE IF v.k = 2
  THEN CASE v.g -> <<Insert(t, v.id), TRUE>>
         [] v.id = 13 -> <<Submit(t), TRUE>>
         [] v.id = 27 -> <<Cancel(t), TRUE>>
         [] v.id = 127 -> <<Backspace(t), TRUE>>
         [] OTHER -> <<t, FALSE>>
  ELSE IF IsMove(v) THEN <<Move(t, MoveOf(v)[1]), TRUE>>
  ELSE <<t, FALSE>>
RECURSIVE HandleAll(_, _, _, _)
HandleAll(t, vs, i, ks) ==
  IF i > Len(vs) THEN <<t, ks>>
  ELSE LET h == Handle(t, vs[i]) IN HandleAll(h[1], vs, i + 1, Append(ks, IF h[2] THEN 0 ELSE vs[i].k))

\* the frame had back in every cell; only the box may differ
Back == 120
Drawn(e, t) ==
  LET w == e.box[3] - e.box[1]
      v == t.cur - (e.uc[1] - e.box[1])
      sh == Shown(t, w, v) IN
  /\ e.vis /\ e.uc[2] = e.box[2]
  /\ IsView(t, w, v)
  /\ \A y \in 1 .. Len(e.rows) : \A x \in 1 .. Len(e.rows[y]) :
       LET c == e.rows[y][x]
           i == x - e.box[1] + 1 IN
       IF y # e.box[2] \/ i < 1 \/ i > w THEN c = Back
       ELSE IF i <= Len(sh) THEN c = sh[i]
       ELSE IF x = e.uc[1] THEN c \in {0, 32, Back}
       ELSE c = Back
Update(e) ==
  LET h == HandleAll(s, e.evs, 1, <<>>) IN
  /\ s' = h[1] /\ e.kinds = h[2]
  /\ e.text = s'.text /\ e.cur = s'.cur
  /\ e.active = (s'.st = 0) /\ e.done = (s'.st = 1) /\ e.canceled = (s'.st = 2)
  /\ IF s'.st = 0 THEN Drawn(e, s')
     ELSE \A y \in 1 .. Len(e.rows) : \A x \in 1 .. Len(e.rows[y]) : e.rows[y][x] = Back
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = New
       [] e.ev = "again" -> s' = New /\ e.bad = ""
       [] e.ev = "upd" -> e.bad = "" /\ Update(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
