------------------------------ MODULE Signals ------------------------------
(***************************************************************************)
(* Signal values: each has a channel for one, is registered for the        *)
(* signals that it was opened with, and may be sent a message.             *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* o: [open, notify: set for the next Open, reg: set registered, q: channel]
New == [open |-> FALSE, notify |-> {}, reg |-> {}, q |-> <<>>]
Open(o) == [o EXCEPT !.open = TRUE, !.reg = @ \cup o.notify]
Close(o) == [o EXCEPT !.open = FALSE, !.reg = {}, !.q = <<>>]
\* one that is there already is kept
Put(o, m) == IF o.q = <<>> THEN [o EXCEPT !.q = <<m>>] ELSE o
Send(o, m) == Put([o EXCEPT !.open = TRUE], m)
Raised(o, g) == IF g \in o.reg THEN Put(o, g) ELSE o
Taken(o) == [o EXCEPT !.q = <<>>]
\* exit status of a process for an error: of one that is due to signal n, one with
\* its own code, or another
Status(kind, n) == CASE kind = "sig" -> (256 - n) % 256
                     [] kind = "code" /\ n # 0 -> n % 256
                     [] OTHER -> 1
=============================================================================
