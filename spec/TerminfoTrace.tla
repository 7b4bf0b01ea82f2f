--------------------------- MODULE TerminfoTrace ---------------------------
(* Judges recorded executions of the terminfo package: reading, where it looks, and loading. *)
EXTENDS Terminfo, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
KeyNames == <<"F1", "F2", "F3", "F4", "F5", "F6", "F7", "F8", "F9", "F10", "F11", "F12", "Insert", "Delete", "Home", "End",
              "PageUp", "PageDown", "Up", "Down", "Left", "Right">>
KeyCaps == <<66, 68, 69, 70, 71, 72, 73, 74, 75, 67, 216, 217, 77, 59, 76, 164, 82, 81, 87, 61, 79, 83>>
FuncNames == <<"EnterCA", "ExitCA", "ShowCursor", "HideCursor", "ClearScreen", "SGR0", "Underline", "Bold", "Blink", "Reverse",
               "EnterKeypad", "ExitKeypad", "EnterMouse", "ExitMouse">>
FuncCaps == <<28, 40, 16, 13, 5, 39, 36, 27, 26, 34, 89, 88>>
CapSet == {KeyCaps[i] : i \in 1 .. Len(KeyCaps)} \cup {FuncCaps[i] : i \in 1 .. Len(FuncCaps)}
Esc(q) == <<27, 91, 63>> \o q
Mouse(c) == LET a == <<49, 48, 48, 48, c>> b == <<49, 48, 48, 50, c>> d == <<49, 48, 49, 53, c>> e == <<49, 48, 48, 54, c>> IN
            IF c = 104 THEN Esc(a) \o Esc(b) \o Esc(d) \o Esc(e) ELSE Esc(e) \o Esc(d) \o Esc(b) \o Esc(a)
\* files: of each <<directory, layout, name>>, its number, 0 if it is no terminfo file; got: what was loaded of each name
Init == l = 1 /\ s = [files |-> <<>>, got |-> <<>>]
Agrees(f, v, c) == LET w == Value(f, c) IN IF w[1] = Absent THEN v = <<>> ELSE w[1] = Missing \/ v = w[2]
Read(e) ==
  LET f == e.file IN
  /\ e.bad = ""
  /\ Fails(f, CapSet) => e.err # ""
  /\ Reads(f, CapSet) => e.err = ""
  /\ e.err = "" =>
       /\ Len(e.keys) = Len(KeyCaps) /\ Len(e.funcs) = Len(FuncNames)
       /\ \A i \in 1 .. Len(KeyCaps) : Agrees(f, e.keys[i], KeyCaps[i]) /\ e.km[KeyNames[i]] = e.keys[i]
       /\ \A i \in 1 .. Len(FuncCaps) : Agrees(f, e.funcs[i], FuncCaps[i])
       /\ e.funcs[13] = Mouse(104) /\ e.funcs[14] = Mouse(108)
       /\ \A i \in 1 .. Len(FuncNames) : e.fm[FuncNames[i]] = e.funcs[i]
       /\ Cardinality(DOMAIN e.km) = Len(KeyNames) /\ Cardinality(DOMAIN e.fm) = Len(FuncNames)
Default == "/usr/share/terminfo"
Dirs(ds) == [i \in 1 .. Len(ds) |-> IF ds[i] = "" THEN Default ELSE ds[i]]
Has(q, x) == \E i \in 1 .. Len(q) : q[i] = x
\* ds: the elements of TERMINFO_DIRS, none if it is not set
Path(info, home, ds) ==
  IF info # "" THEN <<info>>
  ELSE <<home>> \o Dirs(ds) \o (IF Has(ds, "") THEN <<>> ELSE <<Default>>)
Lookup(m, k) == LET P == {i \in 1 .. Len(m) : m[i][1] = k} IN IF P = {} THEN -1 ELSE m[CHOOSE i \in P : \A j \in P : j <= i][2]
RECURSIVE First(_, _)
First(path, name) ==
  IF path = <<>> THEN 0
  ELSE LET a == Lookup(s.files, <<Head(path), "letter", name>>)
           b == Lookup(s.files, <<Head(path), "hex", name>>) IN
       IF a > 0 THEN a ELSE IF b > 0 THEN b ELSE First(Tail(path), name)
\* the terminal a builtin is for, by what the name has
Builtins(e) == IF e.exact # "" THEN {e.exact}
               ELSE {CASE p = "rxvt" -> "rxvt-unicode" [] p \in {"cygwin", "st"} -> "xterm" [] OTHER -> p : p \in {e.parts[i] : i \in 1 .. Len(e.parts)}}
Load(e) ==
  LET old == Lookup(s.got, e.term)
      id == IF old > 0 THEN old ELSE IF e.term = "" THEN 0 ELSE First(Path(e.info, e.home, e.dirs), e.term) IN
  /\ e.bad = ""
  /\ IF id > 0 THEN e.err = "" /\ e.id = id /\ (old > 0 => e.same)
     ELSE IF Builtins(e) # {} THEN e.err = "" /\ e.id = 0 /\ e.name \in Builtins(e)
     ELSE e.err # ""
  /\ s' = IF id > 0 /\ old <= 0 THEN [s EXCEPT !.got = Append(@, <<e.term, id>>)] ELSE s
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "reset" -> s' = [files |-> <<>>, got |-> <<>>]
       [] e.ev = "read" -> Read(e) /\ s' = s
       [] e.ev = "path" -> e.bad = "" /\ e.got = Path(e.info, e.home, e.dirs) /\ s' = s
       [] e.ev = "put" -> s' = [s EXCEPT !.files = Append(@, <<<<e.dir, e.layout, e.term>>, e.id>>)]
       [] e.ev = "load" -> Load(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
