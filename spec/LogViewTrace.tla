---------------------------- MODULE LogViewTrace ----------------------------
(* Judges recorded executions of a LogView over a screen that others drew on. *)
EXTENDS Events, LogView, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  s  \* [ls, part: lines of the log, whether the last is not terminated; vl, ex, top: the view]
vars == <<l, s>>
New == [ls |-> <<>>, part |-> FALSE, vl |-> 0, ex |-> FALSE, top |-> 0]
Init == l = 1 /\ s = New

RECURSIVE AddText(_, _, _)
AddText(u, t, i) ==
  IF i > Len(t) THEN u
  ELSE LET n == Len(u.ls)
           v == IF u.part THEN u ELSE [u EXCEPT !.ls = Append(@, <<>>), !.part = TRUE] IN
       AddText(IF t[i] = 10 THEN [v EXCEPT !.part = FALSE]
               ELSE [v EXCEPT !.ls[Len(v.ls)] = Append(@, t[i])], t, i + 1)

(* ---- what is drawn ---- *)
Trunc(t, w) == IF Len(t) > w THEN Append(SubSeq(t, 1, w - 1), 8230) ELSE t
RECURSIVE Dec(_)
Dec(n) == (IF n < 10 THEN <<>> ELSE Dec(n \div 10)) \o <<48 + (n % 10)>>
\* Logs (a-b/n):
Header(a, b, n) == <<76, 111, 103, 115, 32, 40>> \o Dec(a) \o <<45>> \o Dec(b) \o <<47>> \o Dec(n) \o <<41, 58>>
\* cells of a row with text over what it had
RowShows(row, was, t, w) ==
  LET u == Trunc(t, w) IN
  \A x \in 1 .. w : IF x <= Len(u) THEN row[x] = u[x] ELSE row[x] \in {was[x], 0, 32}

Same(kinds, q) == kinds = [i \in 1 .. Len(q) |-> q[i].k]
EventsOf(e) == [i \in 1 .. Len(e.q) |-> [NoEvent EXCEPT !.k = e.q[i][1], !.id = e.q[i][2], !.s = e.q[i][3], !.x = e.q[i][4], !.y = e.q[i][5]]]
Update(e) ==
  LET n == Len(s.ls)
      q == EventsOf(e)
      vl == IF s.vl = 0 THEN 10 ELSE s.vl
      row == HeadRow(s.ex, vl, e.h, n)
      click == PressesIn(q, <<1, row, e.w + 1, row + 1>>, 1)
      ex == IF click[1] % 2 = 1 THEN ~s.ex ELSE s.ex
      head == HeadRow(ex, vl, e.h, n)
      k == Rows(ex, vl, e.h)
      scroll == Scroll(click[2], <<1, head, e.w + 1, e.h + 2>>) IN
  IF e.w = 0 \/ e.h = 0
  THEN \* no screen
       /\ e.now = e.was /\ e.ex = s.ex /\ Same(e.kinds, q)
       /\ \/ s' = s
          \/ /\ s.top # 0 /\ n > 0
             /\ s' = [s EXCEPT !.top = Window(n, Rows(s.ex, vl, e.h), s.top)[1]]
  ELSE IF n = 0
  THEN \* nothing to show; whether a click toggles is open
       /\ e.now = e.was /\ s' = [s EXCEPT !.ex = e.ex, !.vl = vl]
  ELSE /\ e.ex = ex /\ Same(e.kinds, scroll[2])
       /\ \E top \in Scrolled(n, k, s.top, scroll[1]) :
            LET win == Window(n, k, top) IN
            /\ \A y \in 1 .. e.h :
                 LET i == y - head + (IF IsTall(ex, e.h) THEN 0 ELSE 1) IN
                 IF y < head THEN e.now[y] = e.was[y]
                 ELSE IF i = 0 THEN RowShows(e.now[y], e.was[y], Header(win[1], win[2], n), e.w)
                 ELSE RowShows(e.now[y], e.was[y], s.ls[win[1] + i - 1], e.w)
            /\ s' = [s EXCEPT !.ex = ex, !.vl = vl, !.top = IF top = 0 THEN 0 ELSE win[1]]
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = [New EXCEPT !.vl = e.vl, !.ex = e.ex, !.top = e.top]
       [] e.ev = "log" -> s' = AddText(s, e.t, 1)
       [] e.ev = "read" -> s' = [s EXCEPT !.ls = SubSeq(@, e.n + 1, Len(@))]
       [] e.ev = "upd" -> e.bad = "" /\ Update(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
