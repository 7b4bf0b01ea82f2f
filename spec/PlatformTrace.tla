--------------------------- MODULE PlatformTrace ---------------------------
(***************************************************************************)
(* Judges recorded executions of Platform.Run on a real pseudo terminal,   *)
(* with input, changes of its size and signals coming at any time.  What   *)
(* the client sees in every frame is related to what was typed, as the     *)
(* FrameLoop model has it: a frame takes some of the input that is there,  *)
(* all of it is decoded once and in order, and the rest is for later       *)
(* frames.  What the terminal shows after the frame is related to what the *)
(* client drew by Terminal.                                                *)
(*                                                                         *)
(* Ctrl-R starts a recording; then, in another frame, it ends it, and      *)
(* replays it in the next run: what the client sees, and so its state, has *)
(* to be as it was when recorded.                                          *)
(***************************************************************************)
EXTENDS Events, TLC, Json, IOUtils
TM == INSTANCE Terminal
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
  s,   \* the platform
  T    \* the terminal
vars == <<l, s, T>>

(* ---- the client ---- *)
NewClient == [n |-> 0, text |-> <<>>, count |-> <<>>, flag |-> FALSE, x |-> 0, y |-> 0, opt |-> -1, list |-> <<>>]
Times(r, t) == Cardinality({i \in 1 .. Len(t) : t[i] = r})
RECURSIVE CountFrom(_, _)
CountFrom(r, t) == IF r > 107 THEN <<>> ELSE (IF Times(r, t) > 0 THEN <<<<r, Times(r, t)>>>> ELSE <<>>) \o CountFrom(r + 1, t)
Handle(c, v) ==
  LET d == [c EXCEPT !.n = @ + 1] IN
  IF v.k = 1
  THEN CASE v.id = CsiId(65) -> [d EXCEPT !.y = @ - 1] [] v.id = CsiId(66) -> [d EXCEPT !.y = @ + 1]
         [] v.id = CsiId(67) -> [d EXCEPT !.x = @ + 1] [] v.id = CsiId(68) -> [d EXCEPT !.x = @ - 1]
         [] OTHER -> d
  ELSE IF v.k # 2 THEN d
  ELSE CASE v.id = 33 -> [d EXCEPT !.n = 0, !.text = <<>>, !.count = <<>>, !.list = <<>>]   \* !
         [] v.id = 116 -> [d EXCEPT !.flag = ~@]                                            \* t
         [] v.id = 111 -> [d EXCEPT !.opt = d.n]                                            \* o
         [] v.id = 110 -> [d EXCEPT !.opt = -1]                                             \* n
         [] v.id = 108 -> [d EXCEPT !.list = Append(@, <<d.n, 0>>)]                         \* l
         [] v.id = 109 -> IF d.list = <<>> THEN d ELSE [d EXCEPT !.list = SubSeq(@, 1, Len(@) - 1)]  \* m
         [] v.id \in 97 .. 107 -> LET t == Append(d.text, v.id) IN [d EXCEPT !.text = t, !.count = CountFrom(97, t)]
         [] OTHER -> d
RECURSIVE HandleFrom(_, _, _)
HandleFrom(c, q, i) == IF i > Len(q) THEN c ELSE HandleFrom(Handle(c, q[i]), q, i + 1)
PauseKey == 8741
FailKey == 8364

(* ---- input ---- *)
RECURSIVE Cat(_, _)
Cat(q, j) == IF j = 0 THEN <<>> ELSE Cat(q, j - 1) \o q[j]
\* events of a chunk of input, and the decoder after it
Decode(m, bs) ==
  LET n == Run(m, bs)
      f == FlushEsc(n.m) IN [m |-> f.m, ev |-> Add(<<>>, n.o \o f.o)]
Runes(q, rs) == Cardinality({i \in 1 .. Len(q) : q[i].k = 2 /\ q[i].id \in rs})
CtrlC == 3
CtrlK == 11
CtrlL == 12
CtrlR == 18
Sans(q) == SelectSeq(q, LAMBDA v : ~(v.k = 2 /\ v.id \in {CtrlK, CtrlL, CtrlR}))
\* before Ctrl-C
Before(q) == SubSeq(q, 1, Min0({i \in 1 .. Len(q) : q[i].k = 2 /\ q[i].id = CtrlC}) - 1)
Odd(n) == n % 2 = 1
Shows(t, o) ==
  /\ Len(o) = Len(t)
  /\ \A i \in 1 .. Len(t) :
       LET a == t[i]
           v == o[i] IN
       /\ v.k = a.k /\ v.id = a.id /\ v.r = a.id /\ v.arg = a.arg
       /\ a.k = 3 => v.m = <<a.s, a.x, a.y>>

(* ---- recordings ---- *)
NoRec == [on |-> FALSE]
Restored(u) == u.rp.snap

NoFrame == [redraw |-> FALSE, err |-> "", live |-> TRUE, ret |-> "", g |-> <<>>, u |-> <<>>, w |-> 0, h |-> 0]
NoS == [ph |-> "none"]
NoT == TM!NewTerm(1, 1, <<TM!BlankCell>>, FALSE)
Init == l = 1 /\ s = NoS /\ T = NoT

Reset(e) ==
  /\ e.ev = "reset"
  /\ s' = [ph |-> "out", q |-> <<>>, m |-> Ground, sz |-> <<0, 0>>, lsz |-> <<0, 0>>, lt |-> -1, hud |-> FALSE,
           paused |-> FALSE, mt |-> -1, nth |-> 0, tk0 |-> 0, period |-> e.period, raised |-> <<>>, winch |-> FALSE,
           dirty |-> FALSE, inval |-> TRUE, flushed |-> FALSE, f |-> NoFrame, vis |-> <<>>, st |-> NewClient,
           lasterr |-> "", rec |-> NoRec, rp |-> NoRec, rpos |-> 0, rm |-> Ground, rt |-> -1, pp |-> FALSE, rx |-> TRUE, rn |-> 0, rsz |-> <<0, 0>>,
           tio |-> e.tio, flin |-> e.flin, flout |-> e.flout]
  /\ T' = TM!NewTerm(e.w, e.h, e.cells, FALSE)

Type(e) ==
  /\ e.ev = "type"
  /\ s' = [s EXCEPT !.q = Append(@, e.b)] /\ UNCHANGED T
Size(e) ==
  /\ e.ev = "size"
  /\ s' = [s EXCEPT !.dirty = TRUE, !.winch = @ \/ e.winch]
  /\ T' = [T EXCEPT !.w = e.w, !.h = e.h, !.c = e.cells, !.x = TM!Clamp(@, 1, e.w), !.y = TM!Clamp(@, 1, e.h), !.pend = FALSE]
Sig(e) ==
  /\ e.ev = "sig"
  /\ s' = [s EXCEPT !.raised = Append(@, e.err)] /\ UNCHANGED T

\* what was on the alternate screen
Garbled(t) == [t EXCEPT !.c = [i \in 1 .. t.w * t.h |-> <<63, 1, -1, -1>>], !.x = t.w, !.y = t.h, !.pend = FALSE]
Enter(e) ==
  /\ e.ev = "enter" /\ s.ph = "out"
  /\ {1049, 1002, 1003, 1006} \subseteq {e.modes[i] : i \in 1 .. Len(e.modes)}
  /\ s' = [s EXCEPT !.ph = "idle", !.inval = TRUE]
  /\ T' = [Garbled(T) EXCEPT !.v = TRUE, !.a = TM!AttrZero]

RunStart(e) ==
  /\ e.ev = "run" /\ s.ph = "idle"
  /\ e.st \in {s.st, NewClient}
  /\ LET u == [s EXCEPT !.ph = "run", !.f = NoFrame, !.nth = 0] IN
     s' = IF ~s.rp.on THEN [u EXCEPT !.st = e.st]
          ELSE [u EXCEPT !.st = s.rp.snap.st, !.paused = s.rp.snap.paused, !.lt = s.rp.snap.lt, !.lsz = s.rp.snap.lsz,
                         !.hud = s.rp.snap.hud, !.rpos = 0, !.rm = Ground, !.rt = -1, !.pp = FALSE, !.rn = 0, !.rsz = <<0, 0>>]
  /\ UNCHANGED T

(* ---- frames ---- *)
KSize == <<T.w, T.h>>
\* frames come at ticks
Ticks(e) ==
  /\ e.mt >= s.mt /\ e.mt <= e.mnow
  /\ s.nth >= 2 => e.mt - s.tk0 >= (s.nth - 2) * s.period - 2
Ticked(u, e) == [u EXCEPT !.nth = @ + 1, !.mt = e.mt, !.tk0 = IF s.nth = 1 THEN e.mt ELSE @]
\* a signal that was raised ends the run
ErrOf(e, done) ==
  \/ /\ \E i \in 1 .. Len(s.raised) : s.raised[i] = e.err
  \/ /\ e.err = IF done THEN "replay done" ELSE ""
Without(q, x) ==
  LET is == {i \in 1 .. Len(q) : q[i] = x} IN
  IF is = {} THEN q ELSE SubSeq(q, 1, Min0(is) - 1) \o SubSeq(q, Min0(is) + 1, Len(q))

FrameOf(e, live) == [NoFrame EXCEPT !.redraw = e.redraw, !.err = e.err, !.live = live, !.w = e.w, !.h = e.h]

\* the client sees events q, and sizes; chunk is what was read
Live(e, d, q, m, chunk, s1, stop) ==
  LET toggles == Odd(Runes(d, {CtrlR}))
      start == toggles /\ ~s.rec.on
      end == toggles /\ s.rec.on
      redraw == stop \/ s1 = <<0, 0>> \/ s1 # s.lsz \/ Runes(d, {CtrlL}) > 0
      s2 == IF redraw THEN KSize ELSE s1
      c == [b |-> chunk, w |-> e.w, h |-> e.h, lo |-> e.pt, hi |-> e.now, f |-> IF s.rec.on THEN s.rec.n + 1 ELSE 0]
      rec == IF s.rec.on THEN [s.rec EXCEPT !.n = @ + 1, !.chunks = IF chunk # <<>> THEN Append(@, c) ELSE @] ELSE s.rec
      snap == [st |-> s.st, paused |-> s.paused, lt |-> s.lt, lsz |-> s.lsz, hud |-> s.hud] IN
  /\ Shows(Sans(d), e.q)
  /\ e.redraw = redraw /\ <<e.w, e.h>> = s2
  /\ e.t = IF s.paused THEN s.lt ELSE e.pt
  /\ ErrOf(e, end)
  /\ s' = Ticked([s EXCEPT !.ph = "frame", !.q = q, !.m = m, !.sz = s2, !.lsz = s2, !.lt = e.t, !.hud = e.hud,
                           !.winch = @ /\ s2 # KSize,
                           !.raised = Without(@, e.err), !.f = FrameOf(e, TRUE), !.vis = Sans(d),
                           !.rec = IF start THEN [on |-> TRUE, snap |-> snap, n |-> 0, chunks |-> <<>>] ELSE IF end THEN NoRec ELSE rec,
                           !.rp = IF end THEN rec ELSE IF stop THEN NoRec ELSE @], e)
  /\ e.hud = (s.hud # Odd(Runes(d, {CtrlK})))

LiveFrame(e) ==
  /\ ~s.rp.on
  /\ \E j \in 0 .. Len(s.q), s1 \in {s.sz, KSize} :
       LET bs == Cat(s.q, j)
           r == IF j = 0 THEN [m |-> s.m, ev |-> <<>>] ELSE Decode(s.m, bs) IN
       Live(e, r.ev, SubSeq(s.q, j + 1, Len(s.q)), r.m, bs, s1, FALSE)

\* Ctrl-C ends a replay
StopFrame(e) ==
  /\ s.rp.on
  /\ \E j \in 1 .. Len(s.q) :
       LET r == Decode(s.m, Cat(s.q, j)) IN
       /\ Runes(r.ev, {CtrlC}) > 0
       /\ Live(e, Before(r.ev), SubSeq(s.q, j + 1, Len(s.q)), r.m, <<>>, s.sz, TRUE)

\* a frame of a replay shows the next chunk, or none; input is for the replay only,
\* until it is paused: then nothing goes on but by single steps
Space == 32
Dot == 46
ReplayFrame(e) ==
  /\ s.rp.on
  /\ \E j \in 0 .. Len(s.q), some \in BOOLEAN, reach \in BOOLEAN :
       LET live == IF j = 0 THEN [m |-> s.m, ev |-> <<>>] ELSE Decode(s.m, Cat(s.q, j))
           more == s.rpos < Len(s.rp.chunks)
           c == s.rp.chunks[s.rpos + 1]
           r == Decode(s.rm, c.b)
           pp == IF s.rt = -1 THEN FALSE ELSE s.pp # Odd(Runes(live.ev, {Space}))
           held == pp /\ ~Odd(Runes(live.ev, {Dot}))
           d == IF some THEN r.ev ELSE IF reach THEN SelectSeq(live.ev, LAMBDA v : ~(v.k = 2 /\ v.id \in {Space, Dot})) ELSE <<>> IN
       /\ some => more
       /\ reach => held
       \* there are no more frames than when recorded
       /\ (more /\ ~held /\ c.f <= s.rn + 1) => some
       /\ held => ~some /\ (s.paused \/ ~s.rx \/ e.t = s.rt) /\ <<e.w, e.h>> = s.sz
       /\ Runes(live.ev, {CtrlC}) = 0
       /\ Shows(Sans(d), e.q)
       /\ some => <<e.w, e.h>> = <<c.w, c.h>>
       /\ IF s.paused THEN e.t = s.lt
          ELSE e.t >= s.rt /\ (more => e.t <= c.hi) /\ (some => e.t >= c.lo)
       /\ ErrOf(e, FALSE)
       /\ e.hud = (s.hud # Odd(Runes(d, {CtrlK})))
       /\ s' = Ticked([s EXCEPT !.ph = "frame", !.q = SubSeq(s.q, j + 1, Len(s.q)), !.m = live.m,
                                !.sz = <<e.w, e.h>>, !.lsz = <<e.w, e.h>>, !.lt = e.t, !.hud = e.hud,
                                !.rt = e.t, !.rx = ~s.paused, !.rn = IF held THEN @ ELSE @ + 1, !.pp = pp, !.rpos = IF some THEN @ + 1 ELSE @, !.rm = IF some THEN r.m ELSE @,
                                !.raised = Without(@, e.err), !.f = FrameOf(e, FALSE), !.vis = Sans(d)], e)

RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE Len(Head(q)) + Bytes(Tail(q))
Frame(e) ==
  /\ e.ev = "frame" /\ s.ph = "run" /\ s.f.err = "" /\ s.f.ret = ""
  /\ e.blank /\ Ticks(e)
  /\ e.lt = s.lt /\ <<e.lw, e.lh>> = s.lsz /\ e.paused = s.paused
  /\ IF s.rp.on THEN StopFrame(e) \/ ReplayFrame(e) ELSE LiveFrame(e)
  /\ e.unread >= 0 => Bytes(s'.q) = e.unread
  /\ UNCHANGED T

Settled(e) ==
  /\ e.ev = "settled" /\ e.ok
  /\ s.q = <<>> \/ s.ph = "frame"
  /\ s.winch => s.sz = KSize
  /\ s' = [s EXCEPT !.winch = FALSE] /\ UNCHANGED T

Drawn(e) ==
  /\ e.ev = "drawn" /\ s.ph = "frame"
  /\ e.st = HandleFrom(s.st, s.vis, 1)
  /\ e.ret = (IF Runes(s.vis, {FailKey}) > 0 THEN "user error" ELSE "")
  /\ s' = [s EXCEPT !.ph = "drawn", !.st = e.st, !.f.ret = e.ret, !.f.g = e.g, !.f.u = e.u,
                    !.paused = @ # Odd(Runes(s.vis, {PauseKey}))]
  /\ UNCHANGED T

\* what was drawn shows on the terminal
Fits == s.f.live /\ s.f.w = T.w /\ s.f.h = T.h
Flushed(toks) ==
  LET full == s.f.redraw \/ s.inval
      t == TM!TermRun(IF full THEN Garbled(T) ELSE T, toks) IN
  /\ ~t.bad
  /\ (Fits /\ (full \/ ~s.dirty)) => (s.hud \/ TM!ShowsGrid(t, t.w, t.h, s.f.g)) /\ TM!ShowsCursor(t, s.f.u)
  /\ T' = t
DirtyAfter == ~Fits \/ (s.dirty /\ ~(s.f.redraw \/ s.inval))

Flush(e) ==
  /\ e.ev = "flush" /\ s.ph = "drawn" /\ e.rest = 0
  /\ Flushed(e.toks)
  /\ s' = [s EXCEPT !.ph = "run", !.dirty = DirtyAfter, !.inval = FALSE, !.flushed = TRUE]

Ran(e) ==
  /\ e.ev = "ran" /\ e.rest = 0
  /\ e.isdone = (e.err = "replay done")
  /\ LET u == [s EXCEPT !.ph = "idle", !.lasterr = e.err] IN
     IF s.ph = "drawn" /\ s.f.err \o s.f.ret # ""
     THEN /\ e.err = (IF s.f.err # "" THEN s.f.err ELSE s.f.ret)
          /\ e.toks = <<>>
          /\ s' = [u EXCEPT !.dirty = TRUE] /\ UNCHANGED T
     ELSE \* there is no frame after the end of a replay
          /\ s.rp.on /\ s.rpos = Len(s.rp.chunks)
          /\ \E j \in 0 .. Len(s.q) :
               LET live == IF j = 0 THEN [m |-> s.m, ev |-> <<>>] ELSE Decode(s.m, Cat(s.q, j)) IN
               /\ Runes(live.ev, {CtrlC}) = 0
               /\ ErrOf(e, TRUE)
               /\ IF s.ph = "drawn"
                  THEN /\ Flushed(e.toks)
                       /\ s' = [u EXCEPT !.q = SubSeq(s.q, j + 1, Len(s.q)), !.m = live.m, !.raised = Without(@, e.err),
                                         !.dirty = DirtyAfter, !.inval = FALSE, !.flushed = TRUE]
                  ELSE /\ s.ph = "run" /\ e.toks = <<>> /\ UNCHANGED T
                       /\ s' = [u EXCEPT !.q = SubSeq(s.q, j + 1, Len(s.q)), !.m = live.m, !.raised = Without(@, e.err)]

Left(e) ==
  /\ e.ev = "left" /\ s.ph = "idle"
  /\ e.err = s.lasterr
  /\ e.tio = s.tio /\ e.flin = s.flin /\ e.flout = s.flout
  /\ LET on == {e.modes[i] : i \in 1 .. Len(e.modes)} IN on \subseteq {25} /\ (s.flushed => on = {25})
  /\ s' = [s EXCEPT !.ph = "out", !.raised = <<>>, !.winch = FALSE] /\ UNCHANGED T
End(e) ==
  /\ e.ev = "end" /\ e.bad = "" /\ s.ph = "out" /\ UNCHANGED <<s, T>>

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> Reset(e) [] e.ev = "type" -> Type(e) [] e.ev = "size" -> Size(e) [] e.ev = "sig" -> Sig(e)
       [] e.ev = "enter" -> Enter(e) [] e.ev = "run" -> RunStart(e) [] e.ev = "frame" -> Frame(e)
       [] e.ev = "settled" -> Settled(e) [] e.ev = "drawn" -> Drawn(e) [] e.ev = "flush" -> Flush(e)
       [] e.ev = "ran" -> Ran(e) [] e.ev = "left" -> Left(e) [] e.ev = "end" -> End(e)
       [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
