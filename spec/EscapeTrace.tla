---------------------------- MODULE EscapeTrace ----------------------------
(***************************************************************************)
(* Judges recorded encodings of control functions, sequences and modes,    *)
(* and decodings of numbers, points, modes and mouse reports.              *)
(***************************************************************************)
EXTENDS Names, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, slots, ms
vars == <<l, slots, ms>>

Charsets == {14, 15, 142, 143} \cup {EscId(b) : b \in (40 .. 47) \cup (107 .. 111) \cup (124 .. 126)}

Esc(e) ==
  LET n == Len(e.pre)
      id == e.id
      b0 == SubSeq(e.b0, n + 1, Len(e.b0)) IN
  /\ SubSeq(e.b, 1, n) = e.pre /\ SubSeq(e.b0, 1, n) = e.pre
  /\ Decodes(SubSeq(e.b, n + 1, Len(e.b)), id, e.arg)
  /\ (e.arg = <<>> /\ ~IsCharset(id)) => Decodes(b0, id, <<>>)
  /\ e.size = Len(b0) /\ e.wb = b0 /\ e.wn = Len(b0)
  /\ e.isesc = (id >= EscId(0))
  /\ e.escok = (IsCharset(id) \/ IsEsc(id)) /\ e.csiok = IsCsi(id)
  /\ e.escok => e.esc = id - 61184
  /\ e.csiok => e.csi = id - 61312
  /\ e.cs = (id \in Charsets)
  /\ Described(id, e.name, e.nameb)

Encoded(q, bs) == Decodes(bs, q.id, Arg(q))
Slots(e, ss) ==
  /\ Len(e.enc) = Len(ss)
  /\ \A i \in 1 .. Len(ss) :
       Encoded(ss[i], e.enc[i]) /\ e.sizes[i] >= Len(e.enc[i]) /\ e.ids[i] = ss[i].id

New(e) == LET ss == Append(slots, [id |-> e.id, bs |-> e.bs, ns |-> e.ns]) IN
          slots' = ss /\ UNCHANGED ms /\ Slots(e, ss)
With(e) == LET ss == Append(slots, [slots[e.i] EXCEPT !.bs = @ \o e.bs, !.ns = @ \o e.ns]) IN
           slots' = ss /\ UNCHANGED ms /\ Slots(e, ss)
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))
RECURSIVE Rev(_)
Rev(xs) == IF xs = <<>> THEN <<>> ELSE Append(Rev(Tail(xs)), Head(xs))
WriteSeqs(e) ==
  /\ e.n = Len(e.b)
  /\ LET r == Run(Ground, e.b)
         want == Cat([k \in 1 .. Len(e.is) |-> LET q == slots[e.is[k]] IN Run(Ground, Encode(q.id, Arg(q))).o]) IN
     r.m = Ground /\ r.o = want
  /\ UNCHANGED <<slots, ms>>

ModeIs(bs, f, e) == Decodes(bs, CsiId(f), (IF e.priv THEN <<63>> ELSE <<>>) \o Digits(e.m))
ModeOk(e) ==
  /\ ModeIs(e.set, 104, e) /\ ModeIs(e.reset, 108, e)
  /\ e.ok /\ e.dm = e.m /\ e.dp = e.priv /\ e.dn = Len(Digits(e.m)) + (IF e.pre THEN 1 ELSE 0)

\* modes are left in reverse order of entering
AddMode(e) ==
  /\ ms' = [set |-> ms.set \o Cat(e.sets), reset |-> Cat(Rev(e.resets)) \o ms.reset]
  /\ UNCHANGED slots
  /\ e.set = ms'.set /\ e.reset = ms'.reset

Mouse(e) ==
  LET m == MouseOf(e.id, e.arg) IN
  CASE m.is \in {"not", "ok"} -> e.ok /\ e.s = m.s /\ e.x = m.x /\ e.y = m.y
    [] m.is = "bad" -> ~e.ok
    [] m.is = "any" -> TRUE

MState(e) ==
  LET s == e.s IN
  /\ ~(Wheel(s) /\ s % 4 = 3) => e.button = Button(s) /\ MouseNamed(s, e.button, Motion(s), Release(s), e.name)
  /\ e.mod = (s & 28) /\ e.motion = Motion(s) /\ e.release = Release(s)
  /\ e.press = Press(s)
  /\ e.press => e.pid = e.button
  /\ e.drag = (Motion(s) /\ ~Release(s) /\ e.button # 0)

Num(e) ==
  LET r == Number(e.arg) IN
  IF e.arg \in {<<>>, <<59>>, <<43>>, <<45>>} THEN ~e.ok
  ELSE IF Len(e.arg) <= 9 /\ r[2] > 0 THEN e.ok /\ ~e.big /\ e.v = r[1] /\ e.n = r[2]
  ELSE e.ok => e.n >= 0 /\ e.n <= Len(e.arg)
Point(e) == e.ok /\ e.x = e.px /\ e.y = e.py /\ e.n = e.len

Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.ev = "reset" THEN slots' = <<>> /\ ms' = [set |-> <<>>, reset |-> <<>>]
     ELSE /\ e.bad = ""
          /\ CASE e.ev = "new" -> New(e)
               [] e.ev = "with" -> With(e)
               [] e.ev = "wseq" -> WriteSeqs(e)
               [] e.ev = "addmode" -> AddMode(e)
               [] OTHER ->
                    /\ UNCHANGED <<slots, ms>>
                    /\ CASE e.ev = "esc" -> Esc(e)
                         [] e.ev = "mode" -> ModeOk(e)
                         [] e.ev = "desc" -> Described(e.id, e.name, e.nameb)
                         [] e.ev = "names" -> e.fs = FunctionTable /\ e.ms = ModeTable /\ e.cs = CodeTable /\ e.private
                         [] e.ev = "mouse" -> Mouse(e)
                         [] e.ev = "mstate" -> MState(e)
                         [] e.ev = "num" -> Num(e)
                         [] e.ev = "point" -> Point(e)
Init == l = 1 /\ slots = <<>> /\ ms = [set |-> <<>>, reset |-> <<>>]
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
