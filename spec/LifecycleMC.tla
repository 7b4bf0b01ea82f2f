---------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle, TLC, Json, FiniteSets
CONSTANTS N, MaxFail, MaxCalls, MaxDepth, Gen
VARIABLES s, log, nf, nc, pe
vars == <<s, log, nf, nc, pe>>
\* pe: the error or panic that the user's function got from its last call
Cl == [i \in 1 .. N |-> i # 1]
Init == s = Start(N, Cl) /\ log = <<>> /\ nf = 0 /\ nc = 0 /\ pe = <<0, 0>>

Do(v) == \E t \in After(s, v) : s' = t /\ log' = Append(log, v)
Id == 1 + nf
UserCall ==
  /\ nc < MaxCalls /\ Len(s.stack) < MaxDepth /\ ~s.broken /\ pe[2] = 0
  /\ nc > 0 => s.stack # <<>>
  /\ \E op \in {"with", "without"} : Do([k |-> "call", op |-> op])
  /\ nc' = nc + 1 /\ pe' = <<0, 0>> /\ UNCHANGED nf
CtxCall ==
  /\ s.stack # <<>> /\ Top(s).ph \in {"enter", "exit", "close"}
  /\ \/ Do([k |-> "ctx", op |-> Top(s).ph, i |-> Top(s).i, e |-> 0]) /\ UNCHANGED nf
     \/ nf < MaxFail /\ Do([k |-> "ctx", op |-> Top(s).ph, i |-> Top(s).i, e |-> Id]) /\ nf' = nf + 1
  /\ UNCHANGED <<nc, pe>>
BodyStarts == Do([k |-> "body"]) /\ pe' = <<0, 0>> /\ UNCHANGED <<nf, nc>>
UserRet ==
  /\ IF pe[2] # 0 THEN Do([k |-> "ret", e |-> 0, p |-> pe[2]]) /\ UNCHANGED nf
     ELSE \/ (s.broken => pe[1] # 0) /\ Do([k |-> "ret", e |-> pe[1], p |-> 0]) /\ UNCHANGED nf
          \/ nf < MaxFail /\ Do([k |-> "ret", e |-> Id, p |-> 0]) /\ nf' = nf + 1
          \/ nf < MaxFail /\ Do([k |-> "ret", e |-> 0, p |-> Id]) /\ nf' = nf + 1
  /\ UNCHANGED <<nc, pe>>
CallDone ==
  /\ s.stack # <<>> /\ Top(s).ph = "done"
  /\ Do([k |-> "done", e |-> IF Top(s).p = 0 THEN Top(s).e ELSE 0, p |-> Top(s).p])
  /\ pe' = <<IF Top(s).p = 0 THEN Top(s).e ELSE 0, Top(s).p>> /\ UNCHANGED <<nf, nc>>
Next == UserCall \/ CtxCall \/ BodyStarts \/ UserRet \/ CallDone
Spec == Init /\ [][Next]_vars
View == <<s, nf, nc, pe>>

\* contexts are entered exactly while a function runs with them
Entered ==
  s.stack # <<>> /\ Top(s).ph = "body" /\ ~s.broken =>
    \A i \in 1 .. N : s.in[i] = s.active
\* once all calls returned everything was left, and what can be closed was closed once
Restored == s.stack = <<>> => \A i \in 1 .. N : ~s.in[i]
Closed == \A i \in 1 .. N :
  /\ s.cn[i] <= 1 /\ (~Cl[i] => s.cn[i] = 0)
  /\ (s.stack # <<>> /\ Top(s).first /\ Top(s).ph = "done" /\ Cl[i] => s.cn[i] = 1)
  /\ (s.cn[i] = 1 => ~s.in[i])
Emitted == (Gen /\ s'.stack = <<>> /\ nc > 0) => PrintT("@@" \o ToJson([log |-> log']))
=============================================================================
