------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* A platform's configuration: names of files, and flags; what it is made  *)
(* of, and what it has running.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences
Files == {"log", "cpu", "trace", "mem", "tel"}
Flags == {"timing", "logt"}
Empty == [log |-> "", cpu |-> "", trace |-> "", mem |-> "", tel |-> "", timing |-> FALSE, logt |-> FALSE]
\* what is set first is kept; flags add up
Merge(a, b) == [k \in DOMAIN Empty |-> IF k \in Flags THEN a[k] \/ b[k] ELSE IF a[k] # "" THEN a[k] ELSE b[k]]
RECURSIVE Merged(_)
Merged(cs) == IF cs = <<>> THEN Empty ELSE Merge(Head(cs), Merged(Tail(cs)))
\* command line flags, in order, each <<field, value>>
RECURSIVE Parsed(_, _)
Parsed(c, as) == IF as = <<>> THEN c
                 ELSE Parsed([c EXCEPT ![as[1][1]] = as[1][2]], Tail(as))
Measures(c) == c.timing \/ c.logt
=============================================================================
