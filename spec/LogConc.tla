------------------------------ MODULE LogConc ------------------------------
(***************************************************************************)
(* A log sink that others log to, while its owner looks at the contents,   *)
(* reads them, and has the file written in the background or not.  Every   *)
(* record is one byte, and a line.  If Locked, a write is one step as far  *)
(* as the owner is concerned; otherwise it is one for each of: where to    *)
(* write, writing there, noting the end of line, adding to the contents.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxWrite, MaxOps, Locked
VARIABLES n, buf, eols, gone, dfr, file, direct, pc, to, snap, ops, held
vars == <<n, buf, eols, gone, dfr, file, direct, pc, to, snap, ops, held>>
Init == n = 0 /\ buf = <<>> /\ eols = <<>> /\ gone = <<>> /\ dfr = <<>> /\ file = <<>> /\ direct = FALSE
        /\ pc = "idle" /\ to = FALSE /\ snap = <<<<>>, <<>>>> /\ ops = 0 /\ held = FALSE
Rest == UNCHANGED <<n, buf, eols, gone, dfr, file, direct, snap, ops>>
\* the writer
Begin == /\ pc = "idle" /\ n < MaxWrite /\ ~held /\ pc' = "where" /\ n' = n + 1 /\ held' = Locked
         /\ UNCHANGED <<buf, eols, gone, dfr, file, direct, to, snap, ops>>
Where == pc = "where" /\ to' = direct /\ pc' = "put" /\ UNCHANGED held /\ Rest
Put == /\ pc = "put" /\ pc' = "eol"
       /\ IF to THEN file' = Append(file, n) /\ UNCHANGED dfr ELSE dfr' = Append(dfr, n) /\ UNCHANGED file
       /\ UNCHANGED <<n, buf, eols, gone, direct, to, snap, ops, held>>
Eol == /\ pc = "eol" /\ pc' = "add" /\ eols' = Append(eols, Len(buf))
       /\ UNCHANGED <<n, buf, gone, dfr, file, direct, to, snap, ops, held>>
Add == /\ pc = "add" /\ pc' = "idle" /\ buf' = Append(buf, n) /\ held' = FALSE
       /\ UNCHANGED <<n, eols, gone, dfr, file, direct, to, snap, ops>>
\* the worker, when there is one
Flush == /\ ~direct /\ dfr # <<>> /\ file' = file \o dfr /\ dfr' = <<>>
         /\ UNCHANGED <<n, buf, eols, gone, direct, pc, to, snap, ops, held>>
\* the owner, in one step each
Op == ops < MaxOps /\ ops' = ops + 1 /\ ~held /\ UNCHANGED held
Look == Op /\ snap' = <<buf, eols>> /\ UNCHANGED <<n, buf, eols, gone, dfr, file, direct, pc, to>>
Read == /\ Op /\ buf # <<>> /\ gone' = Append(gone, Head(buf)) /\ buf' = Tail(buf)
        /\ eols' = [i \in 1 .. Len(eols) - 1 |-> eols[i + 1] - 1]
        /\ UNCHANGED <<n, dfr, file, direct, pc, to, snap>>
Stop == Op /\ ~direct /\ direct' = TRUE /\ file' = file \o dfr /\ dfr' = <<>> /\ UNCHANGED <<n, buf, eols, gone, pc, to, snap>>
Start == Op /\ direct /\ direct' = FALSE /\ UNCHANGED <<n, buf, eols, gone, dfr, file, pc, to, snap>>
Next == Begin \/ Where \/ Put \/ Eol \/ Add \/ Flush \/ Look \/ Read \/ Stop \/ Start
Spec == Init /\ [][Next]_vars
All == [i \in 1 .. n |-> i]
\* what is seen is whole
Whole == Len(snap[1]) = Len(snap[2]) /\ \A i \in 1 .. Len(snap[2]) : snap[2][i] = i - 1
Kept == pc = "idle" => gone \o buf = All
\* nothing waits for a worker that there is not, and the file has it in order
Written == /\ pc = "idle" => file \o dfr = All
           /\ pc = "idle" /\ direct => dfr = <<>>
=============================================================================
