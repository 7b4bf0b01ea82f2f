------------------------------ MODULE TtyTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of a Term, with all its contexts, on a real  *)
(* pseudo terminal.  Every event comes with what can be seen from outside  *)
(* after it: termios settings, file flags, and what was written to the     *)
(* terminal since the last event, which Terminal.tla interprets; here with *)
(* an alternate screen, and further modes.                                 *)
(***************************************************************************)
EXTENDS Terminal, Tty, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, T
vars == <<l, s, T>>

ToSet(q) == {q[i] : i \in 1 .. Len(q)}
Tio(o) == [i |-> ToSet(o.tio.i), o |-> ToSet(o.tio.o), c |-> ToSet(o.tio.c), l |-> ToSet(o.tio.l),
           min |-> o.tio.min, time |-> o.tio.time, rest |-> o.tio.rest]

(* ---- the terminal: t, modes on (positive: private), saved main screen ---- *)
SetMode(X, m, on) ==
  LET Y == [X EXCEPT !.on = IF on THEN @ \cup {m} ELSE @ \ {m}] IN
  IF m = 1049 /\ on /\ ~X.alt
  THEN [Y EXCEPT !.alt = TRUE, !.main = X.t, !.t.c = BlankCells(X.t.w, X.t.h)]
  ELSE IF m = 1049 /\ ~on /\ X.alt
  THEN [Y EXCEPT !.alt = FALSE, !.t = [X.main EXCEPT !.v = X.t.v, !.bad = X.t.bad]]
  ELSE IF m = 25 THEN [Y EXCEPT !.t.v = on, !.on = @ \ {25}] ELSE Y
RECURSIVE ModesFrom(_, _, _, _, _)
ModesFrom(X, ps, i, priv, on) ==
  IF i > Len(ps) THEN X ELSE ModesFrom(SetMode(X, IF priv THEN ps[i] ELSE 0 - ps[i], on), ps, i + 1, priv, on)
Step(X, tok) ==
  IF tok[1] = 2 /\ tok[2] \in {104, 108} /\ tok[3] \in {0, 63}
  THEN ModesFrom(X, SubSeq(tok, 4, Len(tok)), 1, tok[3] = 63, tok[2] = 104)
  ELSE [X EXCEPT !.t = TermStep(@, tok)]
RECURSIVE RunFrom(_, _, _)
RunFrom(X, toks, i) == IF i > Len(toks) THEN X ELSE RunFrom(Step(X, toks[i]), toks, i + 1)
Run(e) == RunFrom(T, e.toks, 1)

NoT == [t |-> NewTerm(1, 1, <<BlankCell>>, FALSE), on |-> {}, alt |-> FALSE, main |-> <<>>]
NoS == [active |-> FALSE]
Init == l = 1 /\ s = NoS /\ T = NoT

(* ---- what has to be seen ---- *)
\* under RunWith
SeenWithin(X, e, u) ==
  /\ ToSet(u.modes) \subseteq X.on
  /\ ~u.dirty => IsWithin(Tio(e), u.user, u.raw, u.echo)
  /\ ~u.shared => e.flout = u.flout
\* outside
SeenOutside(X, e, u) ==
  /\ Tio(e) = u.user \/ (PrintT(<<"tio", u.user>>) /\ FALSE)
  /\ (e.flin = u.flin /\ e.flout = u.flout) \/ (PrintT(<<"fl", u>>) /\ FALSE)
  /\ X.on = {} /\ ~X.alt /\ X.t.v /\ X.t.a = AttrZero
  /\ 1049 \in ToSet(u.modes) => X.t.c = u.cells
Seen(X, e, u) ==
  /\ ~X.t.bad /\ e.rest = 0
  /\ u.broken \/ IF u.active THEN SeenWithin(X, e, u) ELSE SeenOutside(X, e, u)

Reset(e) ==
  /\ e.ev = "reset"
  /\ T' = [t |-> NewTerm(e.w, e.h, e.cells, FALSE), on |-> {}, alt |-> FALSE, main |-> <<>>]
  /\ s' = [active |-> FALSE, under |-> FALSE, broken |-> FALSE, dirty |-> FALSE, stack |-> <<>>, w |-> e.w, h |-> e.h,
           user |-> Tio(e), flin |-> e.flin, flout |-> e.flout, shared |-> e.shared, scr |-> e.scr,
           raw |-> FALSE, echo |-> "unset", modes |-> <<>>, cells |-> e.cells, ret |-> ""]

Dim(X) == <<X.t.w, X.t.h>>
Fit(e, u) == u.scr => <<e.sw, e.sh>> = <<u.w, u.h>>

Call(e) ==
  LET full == (e.op = "with") # s.active IN
  /\ s' = [s EXCEPT !.stack = Append(@, [op |-> e.op, full |-> full, in |-> FALSE]),
                    !.active = IF full THEN ~@ ELSE @,
                    !.dirty = IF full THEN FALSE ELSE @,
                    !.cells = IF s.active \/ s.broken THEN @ ELSE T.t.c]
  /\ e.toks = <<>> /\ T' = T
Body(e) ==
  LET k == Len(s.stack) IN
  /\ ~s.stack[k].in
  /\ s' = [s EXCEPT !.stack[k].in = TRUE]
  /\ T' = Run(e)
  /\ Seen(T', e, s')
  /\ s.active /\ s.stack[k].full => Fit(e, s)
Ret(e) == /\ s' = [s EXCEPT !.ret = e.res, !.cells = IF s.active \/ s.broken THEN @ ELSE T.t.c]
          /\ T' = Run(e) /\ e.toks = <<>>
Done(e) ==
  LET k == Len(s.stack)
      f == s.stack[k]
      lower == SubSeq(s.stack, 1, k - 1) IN
  /\ s' = IF f.full /\ f.op = "with"
          THEN [s EXCEPT !.stack = lower, !.active = FALSE, !.broken = FALSE, !.dirty = FALSE, !.ret = ""]
          ELSE IF f.full /\ e.res = ""
          THEN [s EXCEPT !.stack = lower, !.active = TRUE, !.dirty = FALSE, !.ret = ""]
          \* a context failed while leaving, or reentering: unspecified until the error gets to RunWith
          ELSE IF f.full /\ (~f.in \/ s.ret = "") THEN [s EXCEPT !.stack = lower, !.broken = TRUE, !.ret = ""]
          ELSE [s EXCEPT !.stack = lower, !.ret = ""]
  /\ T' = Run(e)
  /\ e.res = "" => s.ret = "" /\ f.in
  /\ f.in /\ s.ret # "" => e.res = s.ret
  /\ Seen(T', e, s')
  /\ f.full /\ s'.active /\ ~s'.broken => Fit(e, s)

SetRaw(e) == /\ e.err = "" /\ s' = [s EXCEPT !.raw = e.v, !.dirty = IF s.active THEN (IF s.raw = e.v THEN @ ELSE FALSE) ELSE @]
             /\ T' = Run(e) /\ Seen(T', e, s')
Echo(e) == /\ e.err = ""
           /\ LET v == IF e.v THEN "on" ELSE "off" IN
              \* asking for what is in use already need not do anything
              \/ s' = [s EXCEPT !.echo = v, !.dirty = IF s.active /\ s.echo # v THEN TRUE ELSE @]
              \/ s' = [s EXCEPT !.echo = v]
           /\ T' = Run(e) /\ Seen(T', e, s')
Stty(e) == /\ s' = (IF s.active THEN [s EXCEPT !.dirty = TRUE] ELSE [s EXCEPT !.user = Tio(e)])
           /\ T' = Run(e) /\ Seen(T', e, s')
Chfl(e) == /\ ~s.active /\ s' = [s EXCEPT !.flin = e.flin, !.flout = e.flout]
           /\ T' = Run(e) /\ Seen(T', e, s')
Mode(e) == /\ ~s.active /\ T' = Run(e) /\ s' = [s EXCEPT !.modes = @ \o e.ms, !.cells = T'.t.c] /\ Seen(T', e, s')
\* The output cannot be written to, before or from within RunWith: which reports
\* that, and leaves settings and flags as they were all the same. Last of its history.
NoWrite(e) ==
  /\ ~s.active /\ s.modes # <<>>
  /\ e.err # "" /\ e.body = e.late
  /\ Tio(e) = s.user /\ e.flin = s.flin /\ (~e.late => e.flout = s.flout)
  /\ UNCHANGED <<s, T>>
Shell(e) == /\ T' = Run(e) /\ s' = [s EXCEPT !.cells = T'.t.c] /\ Seen(T', e, s')
Read(e) == T' = Run(e) /\ e.toks = <<>> /\ UNCHANGED s /\ Seen(T', e, s')
Type(e) == T' = Run(e) /\ e.toks = <<>> /\ e.got = e.keys /\ UNCHANGED s /\ Seen(T', e, s')
Edit(e) == T' = Run(e) /\ e.toks = <<>> /\ UNCHANGED s
Flush(e) ==
  /\ e.err = "" /\ T' = Run(e) /\ UNCHANGED s /\ Seen(T', e, s')
  /\ ShowsGrid(T'.t, e.gw, e.gh, e.g) /\ ShowsCursor(T'.t, e.u)
Size(e) ==
  LET R(t) == [t EXCEPT !.w = e.w, !.h = e.h, !.c = e.cells, !.x = e.x, !.y = e.y, !.pend = FALSE] IN
  /\ T' = RunFrom([T EXCEPT !.t = R(@), !.main = IF T.alt THEN R(@) ELSE @], e.toks, 1)
  /\ s' = [s EXCEPT !.w = e.w, !.h = e.h, !.cells = e.cells]
  /\ Seen(T', e, s')
  /\ s.active => Fit(e, s')

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     \/ Reset(e)
     \/ /\ e.ev # "reset" /\ e.bad = ""
        /\ CASE e.ev = "call" -> Call(e) [] e.ev = "body" -> Body(e) [] e.ev = "ret" -> Ret(e) [] e.ev = "done" -> Done(e)
             [] e.ev = "raw" -> SetRaw(e) [] e.ev = "echo" -> Echo(e) [] e.ev = "stty" -> Stty(e) [] e.ev = "chfl" -> Chfl(e)
             [] e.ev = "mode" -> Mode(e) [] e.ev = "print" -> Shell(e) [] e.ev = "read" -> Read(e) [] e.ev = "type" -> Type(e)
             [] e.ev = "edit" -> Edit(e) [] e.ev = "flush" -> Flush(e) [] e.ev = "size" -> Size(e)
             [] e.ev = "nowrite" -> NoWrite(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
