----------------------------- MODULE LogViewMC -----------------------------
(* A user's actions on a log view, with lines logged and the screen resized. *)
EXTENDS LogView, Sequences, TLC, Json
CONSTANTS MaxLines, MaxH, View, MaxOps, Gen
VARIABLES n, h, ex, top, was, hist
vars == <<n, h, ex, top, was, hist>>
view == <<n, h, ex, top, was, Len(hist)>>
K == Rows(ex, View, h)
W == Window(n, K, top)
Init == n = 0 /\ h \in 1 .. MaxH /\ ex \in BOOLEAN /\ top = 0 /\ was = <<"none", <<0, 0>>, TRUE>> /\ hist = <<<<h, IF ex THEN 1 ELSE 0>>>>
Op(name, arg) == hist' = Append(hist, <<name, arg>>) /\ was' = <<name, W, top = 0>>
\* what is drawn then
Drawn(m, k, t) == top' = IF t = 0 \/ m = 0 THEN t ELSE Window(m, k, t)[1]
Log == n < MaxLines /\ n' = n + 1 /\ Op("l", 0) /\ Drawn(n', K, top) /\ UNCHANGED <<h, ex>>
Resize == \E x \in 1 .. MaxH : x # h /\ h' = x /\ Op("r", x) /\ Drawn(n, Rows(ex, View, x), top) /\ UNCHANGED <<n, ex>>
Toggle == ex' = ~ex /\ Op("t", 0) /\ Drawn(n, Rows(~ex, View, h), top) /\ UNCHANGED <<n, h>>
Scroll == \E d \in {-3, -1, 1, 2} : n > 0 /\ (\E t \in Scrolled(n, K, top, d) : Drawn(n, K, t)) /\ Op("s", d) /\ UNCHANGED <<n, h, ex>>
\* the oldest line is read
Read == n > 1 /\ n' = n - 1 /\ Op("c", 1) /\ Drawn(n', K, top) /\ UNCHANGED <<h, ex>>
Next == Len(hist) <= MaxOps /\ (Log \/ Resize \/ Toggle \/ Scroll \/ Read)
Spec == Init /\ [][Next]_vars
\* as many lines as there is room for, and all of them exist
Full == n > 0 => W[1] >= 1 /\ W[2] <= n /\ W[2] - W[1] + 1 = Least(n, K)
\* all is on the screen, below a header
Fits == n > 0 => HeadRow(ex, View, h, n) >= 1 /\ HeadRow(ex, View, h, n) + (IF IsTall(ex, h) THEN 1 ELSE 0) + W[2] - W[1] = h
Follows == top = 0 /\ n > 0 => W[2] = n
\* a scrolled view stands still while lines are logged
Still == (was[1] = "l" /\ ~was[3]) => W[1] = was[2][1]
Bottom == n > K => Scrolled(n, K, top, n) = {0, n - K + 1} \/ (top = 0 /\ Scrolled(n, K, top, n) = {0})
Emitted == (Gen /\ Len(hist') = MaxOps + 1) => PrintT("@@" \o ToJson(hist'))
=============================================================================
