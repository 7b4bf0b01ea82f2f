----------------------------- MODULE EditLineMC -----------------------------
(***************************************************************************)
(* A user's keystrokes against the editor; there always is a view, and     *)
(* editing is what its user expects: text before and after the caret.      *)
(***************************************************************************)
EXTENDS EditLine, TLC, Json
CONSTANTS MaxLen, MaxOps, Gen
VARIABLES s, pre, post, log
vars == <<s, pre, post, log>>
\* keys: 1 .. 2 are runes, 10 backspace, 11 left, 12 right, 13 home, 14 end, 15 enter, 16 escape
Init == s = New /\ pre = <<>> /\ post = <<>> /\ log = <<>>
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
Key(k) ==
  /\ log' = Append(log, k)
  /\ CASE k <= 2 -> s' = Insert(s, k) /\ pre' = Append(pre, k) /\ post' = post
       [] k = 10 -> s' = Backspace(s) /\ pre' = (IF pre = <<>> THEN pre ELSE Front(pre)) /\ post' = post
       [] k = 11 -> s' = Move(s, -1) /\ IF pre = <<>> THEN UNCHANGED <<pre, post>>
                                         ELSE pre' = Front(pre) /\ post' = <<Last(pre)>> \o post
       [] k = 12 -> s' = Move(s, 1) /\ IF post = <<>> THEN UNCHANGED <<pre, post>>
                                        ELSE pre' = Append(pre, Head(post)) /\ post' = Tail(post)
       [] k = 13 -> s' = Move(s, -9) /\ pre' = <<>> /\ post' = pre \o post
       [] k = 14 -> s' = Move(s, 9) /\ pre' = pre \o post /\ post' = <<>>
       [] k = 15 -> s' = Submit(s) /\ UNCHANGED <<pre, post>>
       [] k = 16 -> s' = Cancel(s) /\ UNCHANGED <<pre, post>>
Next == /\ Len(log) < MaxOps /\ s.st = 0
        /\ \E k \in {1, 2} \cup 10 .. 16 : (k <= 2 => Len(s.text) < MaxLen) /\ Key(k)
Spec == Init /\ [][Next]_vars
View == <<s, pre, post, Len(log)>>
Zipper == s.text = pre \o post /\ s.cur = Len(pre)
Visible == \A w \in 1 .. MaxLen + 2 :
  \E v \in 0 .. Len(s.text) :
    /\ IsView(s, w, v)
    /\ Len(Shown(s, w, v)) <= w
    /\ (w > Len(s.text) => v = 0 /\ Shown(s, w, v) = s.text)
Emitted == (Gen /\ (Len(log') = MaxOps \/ s'.st # 0)) => PrintT("@@" \o ToJson(log'))
=============================================================================
