------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Design model of the differential screen renderer: a virtual grid and    *)
(* user cursor, the last known real screen, the assembled output, and the  *)
(* terminal that receives it token by token, with partial writes, hard     *)
(* errors, and terminals that change behind our back.                      *)
(*                                                                         *)
(* Checked exhaustively for small grids; also the source of the histories  *)
(* that are replayed into the real code (one for every transition).        *)
(***************************************************************************)
EXTENDS Terminal, TLC, Json, FiniteSets

CONSTANTS W, H,     \* screen size
          Cells,    \* cell values <<rune, flags, fg, bg>>
          UCs,      \* user cursors [x, y, a, v]
          Faults,   \* may writes fail
          Edits,    \* how many edits between two completed flushes
          Bce,      \* does the terminal erase with the background color
          MaxLen,   \* history length
          Gen       \* print histories

VARIABLES vg, uc, real, term, out, pf, edits, hist
vars == <<vg, uc, real, term, out, pf, edits>>
View == vars

N == W * H
NoCur == [x |-> 0, y |-> 0, a |-> AttrZero, v |-> FALSE, ak |-> FALSE, vk |-> FALSE]
BlankGrid == [i \in 1 .. N |-> <<0, 0, -1, -1>>]
Inside(x, y) == x \in 1 .. W /\ y \in 1 .. H

(***************************************************************************)
(* Output assembly.  A step is a pair <<tokens, cursor>>.                  *)
(***************************************************************************)
CSI(f, ps) == <<2, f, 0>> \o ps
CUP(x, y) == CSI(72, <<y, x>>)

MoveToks(c, x, y) ==
  IF c.x < 1 \/ c.y < 1 THEN <<CUP(x, y)>>
  ELSE IF y = c.y + 1 /\ x = 1 THEN <<<<1, 13>>, <<1, 10>>>>
  ELSE IF x # c.x /\ y # c.y THEN <<CUP(x, y)>>
  ELSE IF x > c.x THEN <<CSI(67, <<x - c.x>>)>>
  ELSE IF x < c.x THEN <<CSI(68, <<c.x - x>>)>>
  ELSE IF y > c.y THEN <<CSI(66, <<y - c.y>>)>>
  ELSE IF y < c.y THEN <<CSI(65, <<c.y - y>>)>>
  ELSE <<>>

Move(c, x, y) == <<MoveToks(c, x, y), [c EXCEPT !.x = x, !.y = y]>>

FlagParams(f) ==
  (IF f & 1 # 0 THEN <<1>> ELSE <<>>) \o (IF f & 2 # 0 THEN <<2>> ELSE <<>>) \o
  (IF f & 4 # 0 THEN <<3>> ELSE <<>>) \o (IF f & 8 # 0 THEN <<4>> ELSE <<>>) \o
  (IF f & 16 # 0 THEN <<7>> ELSE <<>>) \o (IF f & 32 # 0 THEN <<8>> ELSE <<>>)

ColorParams(c, base) ==
  IF c < 0 THEN <<>>
  ELSE IF c < 8 THEN <<base + c>>
  ELSE IF c < 16 THEN <<base + 60 + c - 8>>
  ELSE <<base + 8, 5, c>>

SetParams(a) == FlagParams(SansClear(a[1])) \o ColorParams(a[2], 30) \o ColorParams(a[3], 40)

Sgr(c, a) ==
  LET gone == ClearBits(c.a[1], a[1]) # 0 \/ (c.a[2] >= 0 /\ a[2] < 0) \/ (c.a[3] >= 0 /\ a[3] < 0)
      diff == <<ClearBits(a[1], c.a[1]), IF a[2] = c.a[2] THEN -1 ELSE a[2],
                IF a[3] = c.a[3] THEN -1 ELSE a[3]>>
      toks == IF ~c.ak \/ gone THEN <<CSI(109, <<0>> \o SetParams(a))>>
              ELSE IF diff = AttrZero THEN <<>>
              ELSE <<CSI(109, SetParams(diff))>> IN
  <<toks, [c EXCEPT !.a = a, !.ak = TRUE]>>

Hide(c) == <<IF c.vk /\ ~c.v THEN <<>> ELSE <<<<2, 108, 63, 25>>>>, [c EXCEPT !.v = FALSE, !.vk = TRUE]>>
Show(c) == <<IF c.vk /\ c.v THEN <<>> ELSE <<<<2, 104, 63, 25>>>>, [c EXCEPT !.v = TRUE, !.vk = TRUE]>>

\* print cell value s (as shown) at cell i
PutCell(c, i, s) ==
  LET m == Move(c, ((i - 1) % W) + 1, ((i - 1) \div W) + 1)
      g == Sgr(m[2], <<s[2], s[3], s[4]>>) IN
  <<m[1] \o g[1] \o <<<<0, s[1]>>>>, [g[2] EXCEPT !.x = @ + 1]>>

RECURSIVE PrintFrom(_, _, _)
PrintFrom(c, want, i) == \* want: sequence of <<cell, print it?>>
  IF i > N THEN <<<<>>, c>>
  ELSE IF ~want[i][2] THEN PrintFrom(c, want, i + 1)
  ELSE LET p == PutCell(c, i, want[i][1])
           q == PrintFrom(p[2], want, i + 1) IN <<p[1] \o q[1], q[2]>>

Known(c) == IF Inside(c.x, c.y) THEN c ELSE [c EXCEPT !.x = 0, !.y = 0]

Assemble(g, u, r) ==
  LET h == Hide(r.c)
      k == IF r.g = <<>> THEN [h[2] EXCEPT !.x = 0, !.y = 0] ELSE Known(h[2])
      e == IF k.ak /\ k.a[3] >= 0 THEN Sgr(k, AttrZero) ELSE <<<<>>, k>>
      full == PrintFrom(e[2], [i \in 1 .. N |-> <<Shown(g[i]), g[i][1] # 0>>], 1)
      diff == PrintFrom(k, [i \in 1 .. N |-> <<Shown(g[i]), Shown(g[i]) # Shown(r.g[i])>>], 1)
      d == IF r.g = <<>> THEN <<e[1] \o <<CSI(74, <<2>>)>> \o full[1], full[2]>> ELSE diff
      c0 == IF u.x >= 1 /\ u.y >= 1 /\ ~(Inside(d[2].x, d[2].y) /\ Inside(u.x, u.y))
            THEN [d[2] EXCEPT !.x = 0, !.y = 0] ELSE d[2]
      m == Move(c0, u.x, u.y)
      a == Sgr(m[2], u.a)
      s == Show(a[2])
      f == IF u.v /\ u.x >= 1 /\ u.y >= 1 THEN <<m[1] \o a[1] \o s[1], s[2]>> ELSE Hide(c0) IN
  [toks |-> h[1] \o d[1] \o f[1], real |-> [g |-> g, c |-> f[2]]]

(***************************************************************************)
(* Actions                                                                 *)
(***************************************************************************)
NoFrame == [k |-> "none"]
FrameNow == [k |-> "frame", g |-> vg, u |-> uc]

Log(op) == hist' = Append(hist, op)

Init ==
  /\ vg = BlankGrid /\ uc = [x |-> 0, y |-> 0, a |-> AttrZero, v |-> FALSE]
  /\ real = [g |-> <<>>, c |-> NoCur]
  /\ term = NewTerm(W, H, [i \in 1 .. N |-> <<63, 0, -1, -1>>], Bce)
  /\ out = <<>> /\ pf = NoFrame /\ edits = 0
  /\ hist = <<[op |-> "init", w |-> W, h |-> H, bce |-> Bce]>>

Cell(i, s) ==
  /\ edits < Edits /\ vg[i] # s
  /\ vg' = [vg EXCEPT ![i] = s] /\ edits' = edits + 1
  /\ Log([op |-> "cell", i |-> i, r |-> s[1], a |-> <<s[2], s[3], s[4]>>])
  /\ UNCHANGED <<uc, real, term, out, pf>>

UCur(u) ==
  /\ edits < Edits /\ uc # u
  /\ uc' = u /\ edits' = edits + 1
  /\ Log([op |-> "ucur", x |-> u.x, y |-> u.y, v |-> u.v, a |-> u.a])
  /\ UNCHANGED <<vg, real, term, out, pf>>

\* somebody else writes to the terminal, and we are told
Garble(x, y) ==
  /\ edits < Edits
  /\ term' = [term EXCEPT !.c = [i \in 1 .. N |-> <<63, 0, -1, -1>>], !.x = x, !.y = y, !.pend = FALSE]
  /\ real' = [real EXCEPT !.g = <<>>]
  /\ pf' = IF pf.k = "none" THEN pf ELSE [k |-> "stale"]
  /\ edits' = edits + 1
  /\ Log([op |-> "garble", x |-> x, y |-> y])
  /\ UNCHANGED <<vg, uc, out>>

\* the rest of a frame in flight goes first
Job == IF out # <<>> THEN [toks |-> out, real |-> real] ELSE Assemble(vg, uc, real)

FlushOk ==
  LET j == Job IN
  /\ term' = TermRun(term, j.toks) /\ real' = j.real
  /\ out' = <<>> /\ pf' = NoFrame /\ edits' = 0
  /\ Log([op |-> "flush", k |-> 0, err |-> ""])
  /\ UNCHANGED <<vg, uc>>

FlushAgain(k) ==
  LET j == Job IN
  /\ Faults /\ k < Len(j.toks)
  /\ term' = TermRun(term, SubSeq(j.toks, 1, k)) /\ real' = j.real
  /\ out' = SubSeq(j.toks, k + 1, Len(j.toks))
  /\ pf' = IF pf.k = "none" THEN FrameNow ELSE pf
  /\ edits' = 0
  /\ Log([op |-> "flush", k |-> k, err |-> "again"])
  /\ UNCHANGED <<vg, uc>>

FlushErr(k) ==
  LET j == Job IN
  /\ Faults /\ k < Len(j.toks)
  /\ term' = TermRun(term, SubSeq(j.toks, 1, k))
  /\ real' = [g |-> <<>>, c |-> NoCur] /\ out' = <<>> /\ pf' = NoFrame
  /\ vg' = BlankGrid /\ uc' = [x |-> 0, y |-> 0, a |-> AttrZero, v |-> FALSE] /\ edits' = 0
  /\ Log([op |-> "flush", k |-> k, err |-> "hard"])

\* the program leaves the terminal: what it has in flight is dropped, with all
\* that is known of what it did; then graphics and cursor get restored
Exit ==
  LET r == IF out = <<>> THEN real ELSE [g |-> <<>>, c |-> NoCur]
      g == Sgr(r.c, AttrZero)
      s == Show(g[2]) IN
  /\ Faults
  /\ term' = TermRun(term, g[1] \o s[1]) /\ real' = [r EXCEPT !.c = s[2]]
  /\ out' = <<>> /\ pf' = NoFrame
  /\ vg' = BlankGrid /\ uc' = [x |-> 0, y |-> 0, a |-> AttrZero, v |-> FALSE] /\ edits' = 0
  /\ Log([op |-> "exit"])

Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E i \in 1 .. N, s \in Cells : Cell(i, s)
     \/ \E u \in UCs : UCur(u)
     \/ \E x \in {1, W}, y \in {1, H} : Garble(x, y)
     \/ FlushOk \/ Exit
     \/ \E k \in 0 .. 6 : FlushAgain(k) \/ FlushErr(k)

Spec == Init /\ [][Next]_<<vars, hist>>

(***************************************************************************)
(* What holds                                                              *)
(***************************************************************************)
\* the last thing that happened was a completed flush of frame f
FlushedInSync ==
  [][ (hist'[Len(hist')].op = "flush" /\ hist'[Len(hist')].err = "" /\ pf.k # "stale") =>
        LET f == IF pf.k = "frame" THEN pf ELSE FrameNow IN
        ShowsGrid(term', W, H, f.g) /\ ShowsCursor(term', f.u) /\ ~term'.bad ]_<<vars, hist>>

ExitRestores ==
  [][ hist'[Len(hist')].op = "exit" => (term'.a = AttrZero /\ term'.v /\ ~term'.bad /\ term'.c = term.c) ]_<<vars, hist>>

\* what is taken for real is real, whenever no output is in flight
RealIsReal ==
  (out = <<>>) =>
    /\ real.c.ak => real.c.a = term.a
    /\ real.c.vk => real.c.v = term.v
    /\ (real.g # <<>> /\ Inside(real.c.x, real.c.y)) => real.c.x = term.x /\ real.c.y = term.y
    /\ real.g # <<>> => ShowsGrid(term, W, H, real.g)

Emitted == Gen => PrintT("@@" \o ToJson(hist'))
=============================================================================
