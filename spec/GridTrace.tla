----------------------------- MODULE GridTrace -----------------------------
(* Judges recorded histories of grids, views and drawing. *)
EXTENDS Grid, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bs, views
vars == <<l, bs, views>>

Init == l = 1 /\ bs = <<>> /\ views = <<>>
\* what the library has about view v: its rectangle, stride, data length
Has(b, v, e) ==
  IF v.b = 0 THEN e.r[3] <= e.r[1] \/ e.r[4] <= e.r[2]
  ELSE e.r = v.r /\ (b[v.b].w > 0 => e.stride = b[v.b].w) /\ e.n = b[v.b].w * b[v.b].h

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN bs' = <<>> /\ views' = <<>>
     ELSE
     /\ e.bad = ""
     /\ CASE e.ev = "base" -> \* a new grid was given size w, h and content c
               LET v == [b |-> Len(bs) + 1, r |-> <<1, 1, 1 + e.w, 1 + e.h>>] IN
               /\ bs' = Append(bs, [w |-> e.w, h |-> e.h, c |-> e.c])
               /\ e.out = (e.w # 0 \/ e.h # 0) /\ Has(bs', v, e)
               /\ views' = Append(views, v)
          [] e.ev = "sub" ->
               LET v == views[e.i]
                   u == CASE e.kind = "rect" -> SubRect(v, e.a)
                          [] e.kind = "at" -> SubAt(v, e.a[1], e.a[2])
                          [] e.kind = "size" -> SubSize(v, e.a[1], e.a[2])
                          [] e.kind = "full" /\ v.b # 0 /\ bs[v.b].w * bs[v.b].h = 0 -> [v EXCEPT !.r = e.r]
                          [] e.kind = "full" -> Full(bs, v) IN
               /\ (e.kind = "full" /\ v.b # 0 /\ bs[v.b].w * bs[v.b].h = 0) => (Dx(u.r) <= 0 \/ Dy(u.r) <= 0)
               /\ Has(bs, u, e) /\ (e.issub <=> IsSub(bs, u))
               /\ views' = Append(views, u) /\ UNCHANGED bs
          [] e.ev = "draw" ->
               /\ bs' = Draw(bs, views[e.d], views[e.s], e.st) /\ UNCHANGED views
               /\ \A b \in 1 .. Len(bs') : bs'[b].c = e.bs[b]
          [] e.ev = "clear" ->
               /\ bs' = Clear(bs, views[e.i]) /\ UNCHANGED views
               /\ \A b \in 1 .. Len(bs') : bs'[b].c = e.bs[b]
          [] e.ev = "off" -> \* offset of a point, through which the cell was set
               LET v == views[e.i]
                   in == v.b # 0 /\ PtIn(e.x, e.y, v.r) IN
               /\ e.ok <=> in
               /\ in => e.off = Offset(bs, v, e.x, e.y)
               /\ bs' = (IF in THEN Set(bs, v, e.x, e.y, e.c) ELSE bs)
               /\ UNCHANGED views
          [] e.ev = "eq" ->
               /\ e.out <=> Equal(bs, views[e.i], views[e.j], e.z)
               /\ UNCHANGED <<bs, views>>
          [] e.ev = "resize" ->
               LET v == views[e.i]
                   same == Dx(v.r) = e.w /\ Dy(v.r) = e.h IN
               IF same THEN /\ ~e.out /\ Has(bs, v, e)
                            /\ bs[v.b].c = e.c
                            /\ UNCHANGED <<bs, views>>
               ELSE IF IsSub(bs, v)
               THEN LET u == SubResize(bs, v, e.w, e.h) IN
                    /\ Has(bs, u, e) /\ (u # v => e.out)
                    /\ bs[v.b].c = e.c
                    /\ views' = [views EXCEPT ![e.i] = u] /\ UNCHANGED bs
               ELSE \* gets another base; where it goes of what it had is not said, but
                    \* cells it did not have are empty
                    LET u == [b |-> Len(bs) + 1, r |-> <<1, 1, 1 + e.w, 1 + e.h>>] IN
                    /\ e.out /\ Len(e.c) = e.w * e.h
                    /\ \A k \in 1 .. Len(e.new) : e.new[k] = <<0, 0, -1, -1>>
                    /\ bs' = Append([bs EXCEPT ![v.b] = [w |-> 0, h |-> 0, c |-> <<>>]], [w |-> e.w, h |-> e.h, c |-> e.c])
                    /\ Has(bs', u, e)
                    /\ views' = [views EXCEPT ![e.i] = u]
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
