-------------------------------- MODULE HUD --------------------------------
(***************************************************************************)
(* The debug overlay: what its controls do, and which rows it shows.       *)
(* Profiles and the telemetry log are "files": each may have a file        *)
(* chosen; profiles may also be running.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences
Telem == "Telemetry Log"
Cpu == "CPU profiler"
Trc == "Trace profiler"
Of(p) == p \o " profiler"
\* all: names of profiles that may be added, in order
\* s: flags, act: row that is edited, txt and cur: the text edited and caret,
\* added: profiles, file: file chosen for a row, on: rows running
New(all) == [all |-> all, vis |-> FALSE, td |-> FALSE, fd |-> FALSE, pd |-> FALSE, fc |-> FALSE, paused |-> FALSE, timing |-> FALSE,
        stalls |-> FALSE, logt |-> FALSE, logs |-> FALSE, act |-> "", txt |-> "", cur |-> 0,
        added |-> <<>>, file |-> [r \in {Telem, Cpu, Trc} \cup {Of(all[i]) : i \in 1 .. Len(all)} |-> ""],
        on |-> {}, disk |-> {}]
Range(q) == {q[i] : i \in 1 .. Len(q)}
Profilers(s) == <<Cpu, Trc>> \o [i \in 1 .. Len(s.added) |-> Of(s.added[i])]
RECURSIVE Left(_, _)
Left(s, i) == IF i > Len(s.all) THEN <<>>
              ELSE (IF s.all[i] \in Range(s.added) THEN <<>> ELSE <<s.all[i]>>) \o Left(s, i + 1)
Default(r) == CASE r = Telem -> "telemetry.log"
                [] r = Cpu -> "prof.cpu"
                [] r = Trc -> "prof.trace"
                [] OTHER -> "prof." \o SubSeq(r, 1, Len(r) - Len(" profiler"))
Anything == "*"
(* ---- what is shown ---- *)
EditShows(s, r) ==
  IF s.act = r THEN IF s.txt = "" THEN Default(r) ELSE s.txt
  ELSE IF s.file[r] # "" THEN s.file[r]
  ELSE IF r = Telem THEN "Go Log" ELSE "Choose File"
Row(k, v, x) == [k |-> k, v |-> v, x |-> x]  \* x: "on" or "off" for a spinner
Bool(b) == IF b THEN "true" ELSE "false"
TimeRows(s) ==
  IF ~s.td THEN <<>>
  ELSE <<Row("last", Anything, ""), Row("dt", Anything, ""),
         Row("paused", IF s.paused THEN "Resume" ELSE "Pause", ""), Row("recording", "Start", "")>>
TelemRows(s) ==
  IF ~(s.td \/ s.fd) THEN <<>>
  ELSE <<Row("# Telemetry:", "", ""), Row(Telem, EditShows(s, Telem), ""),
         Row("Log Timing", Bool(s.logt), ""), Row("Log Stalls", Bool(s.logs), "")>>
Spin(s, r) == IF r \in s.on THEN "on" ELSE "off"
ProfRows(s) ==
  IF ~s.pd THEN <<>>
  ELSE LET ps == Profilers(s)
           left == Left(s, 1) IN
       <<Row("# Profiling Control:", "", ""), Row("All", "/dev/null", IF s.on = {} THEN "off" ELSE "on")>>
       \o [i \in 1 .. Len(ps) |-> Row(ps[i], EditShows(s, ps[i]), Spin(s, ps[i]))]
       \o (IF s.act = "PProf" /\ left # <<>> THEN [i \in 1 .. Len(left) |-> Row(IF i = 1 THEN "PProf" ELSE "", left[i], "")]
           ELSE <<Row("PProf", "Add", "")>>)
FrameRows(s) ==
  IF ~s.fd THEN <<>>
  ELSE <<Row("# Frame Control:", "", ""), Row("# Frame Timing:", "", "")>>
       \o (IF s.timing THEN [i \in 1 .. 7 |-> Row(<<"estimate", "actual", "dt min", "q1", "q2", "q3", "max">>[i], Anything, "")] ELSE <<>>)
       \o <<Row("# Output Stalls:", "", "")>>
       \o (IF s.stalls THEN [i \in 1 .. 5 |-> Row(<<"Stalls", "min t", "max t", "sum t", "% t">>[i], Anything, "")] ELSE <<>>)
Shown(s) == IF ~s.vis THEN <<>> ELSE TimeRows(s) \o TelemRows(s) \o ProfRows(s) \o FrameRows(s)
HasRow(s, r) == \E i \in 1 .. Len(Shown(s)) : Shown(s)[i].k = r
(* ---- what is done ---- *)
Idle(s) == [s EXCEPT !.act = "", !.txt = "", !.cur = 0]
\* a row that is no longer shown is not edited
Gone(s) == IF s.act # "" /\ ~HasRow(s, s.act) THEN Idle(s) ELSE s
\* a click elsewhere may end editing
MayIdle(s) == {s, Idle(s)}
Edit(s, r) == [s EXCEPT !.act = r, !.txt = s.file[r], !.cur = 0]
Start(s, r) == [s EXCEPT !.on = @ \cup {r}, !.file[r] = IF @ = "" THEN Default(r) ELSE @,
                         !.disk = @ \cup {IF s.file[r] = "" THEN Default(r) ELSE s.file[r]}]
RECURSIVE StartAll(_, _, _)
StartAll(s, q, i) == IF i > Len(q) THEN s ELSE StartAll(Start(s, q[i]), q, i + 1)
Submit(s) ==
  LET r == s.act
      f == IF s.txt = "" THEN Default(r) ELSE s.txt
      t == [s EXCEPT !.file[r] = f, !.disk = @ \cup {f}] IN
  Idle(IF r = Telem THEN t ELSE Start(t, r))
Toggle(s, f) == CASE f = "time" -> [s EXCEPT !.td = ~@]
                  [] f = "fps" -> [s EXCEPT !.fd = ~@]
                  [] f = "prof" -> [s EXCEPT !.pd = ~@]
                  [] f = "paused" -> [s EXCEPT !.paused = ~@]
                  [] f = "Log Timing" -> [s EXCEPT !.logt = ~@]
                  [] f = "Log Stalls" -> [s EXCEPT !.logs = ~@]
                  [] f = "# Profiling Control:" -> [s EXCEPT !.pd = ~@]
                  [] f = "# Frame Control:" -> [s EXCEPT !.fc = ~@]
                  [] f = "# Frame Timing:" -> [s EXCEPT !.timing = ~@]
                  [] f = "# Output Stalls:" -> [s EXCEPT !.stalls = ~@]
Toggles == {"time", "fps", "prof", "paused", "Log Timing", "Log Stalls", "# Profiling Control:", "# Frame Control:",
            "# Frame Timing:", "# Output Stalls:"}
\* states after n clicks on control c within one frame, what = "spin" for the spinner of a row, "sel" for one
\* that may be selected, "" for its button
Click(s, c, what, n) ==
  IF what = "sel" THEN {Idle([s EXCEPT !.added = Append(@, c)])}
  ELSE IF n % 2 = 0 THEN MayIdle(s)
  ELSE IF c \in Toggles THEN {Gone(t) : t \in MayIdle(Toggle(s, c))}
  ELSE IF what = "spin"
  THEN IF c = "All" THEN MayIdle(IF s.on # {} THEN [s EXCEPT !.on = {}] ELSE StartAll(s, Profilers(s), 1))
       ELSE MayIdle(IF c \in s.on THEN [s EXCEPT !.on = @ \ {c}] ELSE Start(s, c))
  ELSE IF c = "PProf" THEN {[Idle(s) EXCEPT !.act = "PProf"]}
  ELSE IF c # "" /\ c = s.act THEN {IF s.txt = "" THEN Submit(s) ELSE s}
  ELSE IF c \in DOMAIN s.file THEN {Edit(s, c)}
  ELSE {Idle(s)} \* All, or nothing
Keys(s, n) == IF n % 2 = 0 THEN s ELSE IF s.vis THEN Idle([s EXCEPT !.vis = FALSE]) ELSE [s EXCEPT !.vis = TRUE]
Typed(s, ch) ==
  IF s.act \notin DOMAIN s.file THEN s
  ELSE CASE ch = "Enter" -> Submit(s)
         [] ch = "Del" -> IF s.cur = 0 THEN s
                          ELSE [s EXCEPT !.txt = SubSeq(@, 1, s.cur - 1) \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ - 1]
         [] OTHER -> [s EXCEPT !.txt = SubSeq(@, 1, s.cur) \o ch \o SubSeq(@, s.cur + 1, Len(@)), !.cur = @ + 1]
=============================================================================
