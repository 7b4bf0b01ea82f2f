------------------------------- MODULE HUDMC -------------------------------
(* A user's actions on the HUD: anything that it shows may be clicked. *)
EXTENDS HUD, TLC, Json
CONSTANTS Profiles, MaxOps, MaxTxt, Gen
VARIABLES s, was, hist
OneProfile == <<"heap">>
vars == <<s, was, hist>>
view == <<s, was, Len(hist)>>
Init == s = New(Profiles) /\ was = <<s, "", "">> /\ hist = <<>>
\* what may be clicked: <<control, what>>
Spots ==
  IF ~s.vis THEN {}
  ELSE {<<"", "">>, <<"time", "">>, <<"fps", "">>, <<"prof", "">>, <<"W", "">>} \cup
       UNION {LET r == Shown(s)[i] IN
              (IF r.x # "" THEN {<<r.k, "spin">>} ELSE {})
              \cup (IF s.act = "PProf" /\ r.v \in Range(s.all) THEN {<<r.v, "sel">>}
                    ELSE IF r.v = Anything \/ r.k = "recording" THEN {} ELSE {<<r.k, "">>}) : i \in 1 .. Len(Shown(s))}
Op(op) == hist' = Append(hist, op) /\ was' = <<s, op[1], op[2]>>
Key == s' = Keys(s, 1) /\ Op(<<"key", "", "">>)
Press == \E c \in Spots : s' \in Click(s, c[1], c[2], 1) /\ Op(<<"click", c[1], c[2]>>)
Type == \E ch \in {"a", "Del", "Enter"} : (ch = "a" => Len(s.txt) < MaxTxt) /\ s.vis /\ s' = Typed(s, ch) /\ Op(<<"type", ch, "">>)
Next == Len(hist) < MaxOps /\ (Key \/ Press \/ Type)
Spec == Init /\ [][Next]_vars
\* what is edited is shown
Edited == s.act = "" \/ (s.vis /\ HasRow(s, s.act))
Text == s.cur \in 0 .. Len(s.txt) /\ (s.act \notin DOMAIN s.file => s.txt = "" /\ s.cur = 0)
\* what runs has a file, which exists
Files == /\ \A r \in s.on : s.file[r] # ""
         /\ \A r \in DOMAIN s.file : s.file[r] # "" => s.file[r] \in s.disk
         /\ s.on \subseteq Range(Profilers(s))
Flags == <<"vis", "td", "fd", "pd", "fc", "paused", "timing", "stalls", "logt", "logs">>
Changed == {f \in Range(Flags) : s[f] # was[1][f]}
\* no action changes more than one flag; only ^K hides or shows it; flags change by clicks only
OneFlag == \A f, g \in Changed : f = g
ByKey == "vis" \in Changed <=> was[2] = "key"
ByClick == Changed \ {"vis"} # {} => was[2] = "click" /\ was[3] \in Toggles
\* profiles run on when hidden, and are not changed by a toggle
Runs == (was[2] = "key" \/ Changed # {}) => s.on = was[1].on /\ s.file = was[1].file /\ s.disk = was[1].disk
\* typing does nothing when nothing is edited
Inert == was[2] = "type" /\ was[1].act = "" => s = was[1]
\* files are made by starting, or submitting
Made == s.disk # was[1].disk => (was[2] = "type" /\ was[3] = "Enter") \/ (was[2] = "click" /\ was[3] \notin Toggles)
Emitted == (Gen /\ Len(hist') = MaxOps) => PrintT("@@" \o ToJson(hist'))
=============================================================================
