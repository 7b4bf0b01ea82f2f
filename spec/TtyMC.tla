------------------------------- MODULE TtyMC -------------------------------
(***************************************************************************)
(* The design: contexts of a Term that save and restore the state of a     *)
(* terminal, under nested RunWith and RunWithout, user settings made       *)
(* outside and inside, reads that switch the blocking mode, and failures.  *)
(***************************************************************************)
EXTENDS Tty, TLC, Json
CONSTANTS MaxOps, MaxDepth, MaxFail, SharedFile, Gen
VARIABLES
  tio, fl,     \* the terminal's settings; the files' flags: [in, out] (equal if shared)
  at, oldfl,   \* Attr: [raw, echo, orig, cur]; Input's saved flags
  mset,        \* whether the modes are set on the terminal
  active, under, stack, \* Term; calls under way
  user, ufl,   \* what the user last set outside
  dirty,       \* the user changed settings inside
  broken,      \* leaving or reentering failed; unwinding
  nf, log
vars == <<tio, fl, at, oldfl, mset, active, under, stack, user, ufl, dirty, broken, nf, log>>

T0 == [i |-> {ICRNL, IXON}, o |-> {OPOST}, c |-> CSIZE, l |-> {ISIG, ICANON, ECHO, IEXTEN}, min |-> 1, time |-> 0]
T1 == [i |-> {ISTRIP}, o |-> {}, c |-> {5, PARENB}, l |-> {ICANON}, min |-> 5, time |-> 3]
Flags == {{}, {"nonblock"}}
Both(f) == IF SharedFile THEN f.in = f.out ELSE TRUE
InFl(f, v) == IF SharedFile THEN [in |-> v, out |-> v] ELSE [f EXCEPT !.in = v]
OutFl(f, v) == IF SharedFile THEN [in |-> v, out |-> v] ELSE [f EXCEPT !.out = v]

Init ==
  /\ tio = T0 /\ fl \in {f \in [in : Flags, out : Flags] : Both(f)} /\ user = tio /\ ufl = fl
  /\ at = [raw |-> FALSE, echo |-> FALSE, orig |-> T0, cur |-> T0, asked |-> FALSE]
  /\ oldfl = {} /\ mset = FALSE /\ active = FALSE /\ under = FALSE
  /\ stack = <<>> /\ dirty = FALSE /\ broken = FALSE /\ nf = 0
  /\ log = <<[op |-> "init", infl |-> fl.in, outfl |-> fl.out]>>

Modify(t) == SetEcho(IF at.raw THEN Raw(t) ELSE t, at.echo)
Log(o) == log' = Append(log, o)
Free == Len(log) < MaxOps /\ ~broken

Enter == \* Input, Output, Attr, Mode
  /\ oldfl' = fl.in
  /\ at' = [at EXCEPT !.orig = tio, !.cur = Modify(tio)] /\ tio' = Modify(tio) /\ mset' = TRUE
  /\ dirty' = FALSE
Exit ==
  /\ mset' = FALSE /\ tio' = at.orig /\ fl' = InFl(fl, oldfl)
With ==
  /\ Free /\ Len(stack) < MaxDepth /\ (stack = <<>> => Len(log) < MaxOps - 2) /\ Log([op |-> "with"])
  /\ IF active THEN stack' = Append(stack, [op |-> "with", full |-> FALSE]) /\ UNCHANGED <<tio, at, oldfl, mset, active, under, dirty>>
     ELSE /\ stack' = Append(stack, [op |-> "with", full |-> TRUE]) /\ active' = TRUE /\ under' = TRUE /\ Enter
  /\ UNCHANGED <<fl, user, ufl, broken, nf>>
WithFails == \* a further context fails to enter: all exit
  /\ Free /\ ~active /\ stack = <<>> /\ nf < MaxFail /\ nf' = nf + 1 /\ Log([op |-> "withfail"])
  /\ at' = [at EXCEPT !.orig = tio, !.cur = Modify(tio)]
  /\ oldfl' = fl.in
  /\ UNCHANGED <<tio, fl, mset, active, under, stack, user, ufl, dirty, broken>>
Without ==
  /\ Free /\ Len(stack) < MaxDepth /\ stack # <<>> /\ Log([op |-> "without"])
  /\ IF ~active THEN stack' = Append(stack, [op |-> "without", full |-> FALSE]) /\ UNCHANGED <<tio, fl, mset, active>>
     ELSE stack' = Append(stack, [op |-> "without", full |-> TRUE]) /\ active' = FALSE /\ Exit
  /\ UNCHANGED <<at, oldfl, under, user, ufl, dirty, broken, nf>>
\* the innermost function returns, with an error or not; errors pass on
Ret(err) ==
  /\ stack # <<>> /\ (broken => err) /\ (~broken /\ err => nf < MaxFail)
  /\ nf' = (IF err /\ ~broken THEN nf + 1 ELSE nf) /\ Log([op |-> "ret", err |-> err])
  /\ LET f == stack[Len(stack)] IN
     /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
     /\ broken' = (err /\ Len(stack) > 1)
     /\ IF ~f.full THEN UNCHANGED <<tio, fl, at, oldfl, mset, active, under, dirty>>
        ELSE IF f.op = "with" THEN (IF active THEN Exit ELSE UNCHANGED <<tio, fl, mset>>) /\ active' = FALSE /\ under' = (Len(stack) > 1)
                                   /\ UNCHANGED <<at, oldfl>> /\ dirty' = FALSE
        ELSE IF err THEN UNCHANGED <<tio, fl, at, oldfl, mset, active, under, dirty>>
        ELSE Enter /\ active' = TRUE /\ UNCHANGED <<fl, under>>
  /\ UNCHANGED <<user, ufl>>

SetRaw(v) ==
  /\ Free /\ v # at.raw /\ Log([op |-> "raw", v |-> v])
  /\ at' = LET a == [at EXCEPT !.raw = v] IN
           IF active THEN [a EXCEPT !.cur = SetEcho(IF v THEN Raw(at.orig) ELSE at.orig, at.echo)] ELSE a
  /\ tio' = (IF active THEN at'.cur ELSE tio)
  /\ dirty' = (IF active THEN FALSE ELSE dirty)
  /\ UNCHANGED <<fl, oldfl, mset, active, under, stack, user, ufl, broken, nf>>
Echo(v) ==
  /\ Free /\ v # at.echo /\ Log([op |-> "echo", v |-> v])
  /\ at' = LET a == [at EXCEPT !.echo = v, !.asked = TRUE] IN IF active THEN [a EXCEPT !.cur = SetEcho(at.cur, v)] ELSE a
  /\ tio' = (IF active THEN at'.cur ELSE tio)
  /\ dirty' = (IF active THEN FALSE ELSE dirty)
  /\ UNCHANGED <<fl, oldfl, mset, active, under, stack, user, ufl, broken, nf>>
Stty(t) == \* by the user or another program
  /\ Free /\ tio # t /\ Log([op |-> "stty", t |-> IF t = T0 THEN 0 ELSE 1]) /\ tio' = t
  /\ IF active THEN dirty' = TRUE /\ UNCHANGED user ELSE user' = t /\ UNCHANGED dirty
  /\ UNCHANGED <<fl, at, oldfl, mset, active, under, stack, ufl, broken, nf>>
Chfl(f) == \* only outside
  /\ Free /\ ~active /\ Both(f) /\ fl # f /\ Log([op |-> "chfl", infl |-> f.in, outfl |-> f.out]) /\ fl' = f /\ ufl' = f
  /\ UNCHANGED <<tio, at, oldfl, mset, active, under, stack, user, dirty, broken, nf>>
ReadAny == \* leaves the file non-blocking
  /\ Free /\ active /\ Log([op |-> "readany"]) /\ fl' = InFl(fl, fl.in \cup {"nonblock"})
  /\ UNCHANGED <<tio, at, oldfl, mset, active, under, stack, user, ufl, dirty, broken, nf>>
ReadMore ==
  /\ Free /\ active /\ Log([op |-> "readmore"]) /\ fl' = InFl(fl, fl.in \ {"nonblock"})
  /\ UNCHANGED <<tio, at, oldfl, mset, active, under, stack, user, ufl, dirty, broken, nf>>
Flush == \* may block for a while, and restores what it found
  /\ Free /\ active /\ Log([op |-> "flush"]) /\ fl' = OutFl(OutFl(fl, fl.out \ {"nonblock"}), fl.out)
  /\ UNCHANGED <<tio, at, oldfl, mset, active, under, stack, user, ufl, dirty, broken, nf>>

Next ==
  \/ With \/ WithFails \/ Without \/ Ret(FALSE) \/ Ret(TRUE)
  \/ \E v \in BOOLEAN : SetRaw(v) \/ Echo(v)
  \/ \E t \in {T0, T1} : Stty(t)
  \/ \E f \in [in : Flags, out : Flags] : Chfl(f)
  \/ ReadAny \/ ReadMore \/ Flush
Spec == Init /\ [][Next]_vars
View == <<tio, fl, at, oldfl, mset, active, under, stack, user, ufl, dirty, broken, nf, Len(log)>>

Outside == ~active => tio = user /\ fl = ufl /\ ~mset
Inside == active => mset /\ (~dirty => tio \in Within(user, at.raw, IF at.echo THEN "on" ELSE IF at.asked THEN "off" ELSE "unset"))
Out == active => fl.out = ufl.out \/ SharedFile
AllDone == stack = <<>> => ~active /\ ~under
Emitted == (Gen /\ stack' = <<>> /\ stack # <<>>) => PrintT("@@" \o ToJson(log'))
=============================================================================
