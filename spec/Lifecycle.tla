------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life cycle of a terminal's contexts under nested RunWith and        *)
(* RunWithout calls, with user functions and contexts that fail or panic.  *)
(*                                                                         *)
(* The state is [stack, active, under, broken, n, cl, in, cn]: the calls   *)
(* that are under way, whether the contexts are entered, whether any       *)
(* RunWith is under way, whether leaving or reentering failed, the number  *)
(* of contexts, those with a Close method, whether each was entered since  *)
(* it last exited, and how often the first RunWith closed it.                      *)
(*                                                                         *)
(* Events                                                                  *)
(*   [k "call", op]      the user calls "with" or "without"                *)
(*   [k "ctx", op, i, e] context i is called to enter, exit or close,      *)
(*                       e # 0 is the error that it returns                *)
(*   [k "body"]          the function given to the call starts             *)
(*   [k "ret", e, p]     and ends, with error e or panic p                 *)
(*   [k "done", e, p]    the call returns error e or panics with p         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start(n, cl) ==
  [stack |-> <<>>, active |-> FALSE, under |-> FALSE, broken |-> FALSE, n |-> n, cl |-> cl,
   in |-> [i \in 1 .. n |-> FALSE], cn |-> [i \in 1 .. n |-> 0]]

Top(s) == s.stack[Len(s.stack)]
SetTop(s, f) == [s EXCEPT !.stack[Len(s.stack)] = f]

\* the frame's next event phase; passes over phases that are complete
RECURSIVE Settle(_)
Settle(s) ==
  LET f == Top(s) IN
  CASE f.ph = "enter" /\ f.i > s.n ->
         IF f.op = "with" THEN SetTop(s, [f EXCEPT !.ph = "call"])
         ELSE SetTop([s EXCEPT !.active = TRUE], [f EXCEPT !.ph = "done"])
    [] f.ph = "exit" /\ f.i = 0 ->
         IF f.op = "with" THEN Settle(SetTop([s EXCEPT !.active = FALSE, !.broken = FALSE], [f EXCEPT !.ph = "close", !.i = s.n]))
         ELSE IF f.e # 0 THEN SetTop([s EXCEPT !.broken = TRUE], [f EXCEPT !.ph = "done"])
         ELSE SetTop([s EXCEPT !.active = FALSE], [f EXCEPT !.ph = "call"])
    [] f.ph = "close" /\ ~f.first -> SetTop(s, [f EXCEPT !.ph = "done"])
    [] f.ph = "close" /\ f.i > 0 /\ ~s.cl[f.i] -> Settle(SetTop(s, [f EXCEPT !.i = @ - 1]))
    [] f.ph = "close" /\ f.i = 0 -> SetTop(s, [f EXCEPT !.ph = "done"])
    [] OTHER -> s

Push(s, f) == [s EXCEPT !.stack = Append(@, f)]
Frame(op, full, first, ph, i) == [op |-> op, full |-> full, first |-> first, ph |-> ph, i |-> i, e |-> 0, p |-> 0]

\* set of states after an event; empty if it must not happen
Call(s, op) ==
  IF Len(s.stack) > 0 /\ Top(s).ph # "body" THEN {}
  ELSE IF op = "with"
  THEN IF s.active THEN {Push(s, Frame(op, FALSE, FALSE, "call", 0))}
       ELSE {Settle([Push(s, Frame(op, TRUE, ~s.under, "enter", 1)) EXCEPT
                        !.active = TRUE, !.under = TRUE,
                        !.cn = IF s.under THEN @ ELSE [i \in 1 .. s.n |-> 0]])}
  ELSE IF ~s.active THEN {Push(s, Frame(op, FALSE, FALSE, "call", 0))}
  ELSE {Settle(Push(s, Frame(op, TRUE, FALSE, "exit", s.n)))}

Failed(f, e) == [f EXCEPT !.e = IF @ = 0 THEN e ELSE @]

Ctx(s, op, i, e) ==
  IF s.stack = <<>> THEN {}
  ELSE LET f == Top(s) IN
  IF f.ph # op \/ f.i # i THEN {}
  ELSE CASE op = "enter" ->
              IF e = 0 THEN {Settle(SetTop([s EXCEPT !.in[i] = TRUE], [f EXCEPT !.i = @ + 1]))}
              ELSE IF f.op = "with" THEN {Settle(SetTop(s, [Failed(f, e) EXCEPT !.ph = "exit", !.i = s.n]))}
              ELSE {SetTop([s EXCEPT !.broken = TRUE], [Failed(f, e) EXCEPT !.ph = "done"])}
         [] op = "exit" -> {Settle(SetTop([s EXCEPT !.in[i] = FALSE], [Failed(f, e) EXCEPT !.i = @ - 1]))}
         [] op = "close" -> {Settle(SetTop([s EXCEPT !.cn[i] = @ + 1], [Failed(f, e) EXCEPT !.i = @ - 1]))}

Body(s) == IF s.stack = <<>> \/ Top(s).ph # "call" THEN {} ELSE {SetTop(s, [Top(s) EXCEPT !.ph = "body"])}

Ret(s, e, p) ==
  IF s.stack = <<>> \/ Top(s).ph # "body" THEN {}
  ELSE LET f == [Top(s) EXCEPT !.e = e, !.p = p] IN
  IF ~f.full THEN {SetTop(s, [f EXCEPT !.ph = "done"])}
  ELSE IF f.op = "with"
  THEN IF ~s.active /\ ~s.broken \* contexts that RunWithout left already stay left
       THEN {Settle(SetTop(s, [f EXCEPT !.ph = "close", !.i = s.n]))}
       ELSE {Settle(SetTop(s, [f EXCEPT !.ph = "exit", !.i = s.n]))}
  ELSE IF e # 0 \/ p # 0 THEN {SetTop(s, [f EXCEPT !.ph = "done"])}
  ELSE {Settle(SetTop(s, [f EXCEPT !.ph = "enter", !.i = 1]))}

Done(s, e, p) ==
  IF s.stack = <<>> \/ Top(s).ph # "done" THEN {}
  ELSE LET f == Top(s) IN
  IF p # f.p \/ (p = 0 /\ e # f.e) THEN {}
  ELSE LET t == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] IN
       {IF f.first THEN [t EXCEPT !.under = FALSE, !.active = FALSE, !.broken = FALSE]
        ELSE IF f.op = "with" /\ f.full THEN [t EXCEPT !.active = FALSE] ELSE t}

After(s, v) ==
  CASE v.k = "call" -> Call(s, v.op)
    [] v.k = "ctx" -> Ctx(s, v.op, v.i, v.e)
    [] v.k = "body" -> Body(s)
    [] v.k = "ret" -> Ret(s, v.e, v.p)
    [] v.k = "done" -> Done(s, v.e, v.p)

(***************************************************************************)
(* Composition: contexts are sequences of single ones; nil (0) adds        *)
(* nothing.                                                                *)
(***************************************************************************)
RECURSIVE Cat(_)
Cat(xs) == IF xs = <<>> THEN <<>> ELSE Head(xs) \o Cat(Tail(xs))
Reversed(q) == [i \in 1 .. Len(q) |-> q[Len(q) + 1 - i]]
\* calls made on a composition, and the first error, given those who fail
Upto(q, F) == \* up to the first in F
  LET js == {j \in 1 .. Len(q) : q[j] \in F} IN
  IF js = {} THEN q ELSE SubSeq(q, 1, CHOOSE j \in js : \A m \in js : j <= m)
FirstOf(q, F) ==
  LET js == {j \in 1 .. Len(q) : q[j] \in F} IN
  IF js = {} THEN 0 ELSE q[CHOOSE j \in js : \A m \in js : j <= m]
Calls(q, op, F, cl) ==
  CASE op = "enter" -> Upto(q, F)
    [] op = "exit" -> Reversed(q)
    [] op = "close" -> SelectSeq(Reversed(q), LAMBDA i : cl[i])
=============================================================================
