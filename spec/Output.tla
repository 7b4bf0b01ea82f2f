------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* Flushing buffered output into a file that is shared with a reader, may  *)
(* be in non-blocking mode, and takes only as much as there is room for.   *)
(*                                                                         *)
(* The design: write; if that would block, clear the non-blocking flag,    *)
(* write the rest, and set the flags back, whatever happened.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS
  Total,    \* bytes to flush, numbered 1 .. Total
  Cap,      \* room in the file
  MayClose  \* the reader may go away
VARIABLES pc, pend, file, recv, nb, nb0, closed, err, stalls
vars == <<pc, pend, file, recv, nb, nb0, closed, err, stalls>>
Min2(a, b) == IF a < b THEN a ELSE b

Init ==
  /\ pc = "write" /\ pend = [i \in 1 .. Total |-> i]
  /\ file \in {<<>>} /\ recv = <<>> /\ nb \in BOOLEAN /\ nb0 = nb
  /\ closed = FALSE /\ err = "" /\ stalls = 0

\* some part of what is pending is accepted; also used for the blocking write
Accept ==
  /\ pc \in {"write", "block"} /\ ~closed /\ pend # <<>> /\ Len(file) < Cap
  /\ \E k \in 1 .. Min2(Cap - Len(file), Len(pend)) :
       /\ file' = file \o SubSeq(pend, 1, k)
       /\ pend' = SubSeq(pend, k + 1, Len(pend))
  /\ UNCHANGED <<pc, recv, nb, nb0, closed, err, stalls>>
WouldBlock ==
  /\ pc = "write" /\ nb /\ ~closed /\ pend # <<>> /\ Len(file) = Cap
  /\ pc' = "block" /\ nb' = FALSE /\ stalls' = stalls + 1
  /\ UNCHANGED <<pend, file, recv, nb0, closed, err>>
Broken ==
  /\ pc \in {"write", "block"} /\ closed /\ pend # <<>>
  /\ err' = "EPIPE" /\ pc' = "restore"
  /\ UNCHANGED <<pend, file, recv, nb, nb0, closed, stalls>>
Written ==
  /\ pc \in {"write", "block"} /\ pend = <<>> /\ pc' = "restore"
  /\ UNCHANGED <<pend, file, recv, nb, nb0, closed, err, stalls>>
Restore == /\ pc = "restore" /\ nb' = nb0 /\ pc' = "done"
           /\ UNCHANGED <<pend, file, recv, nb0, closed, err, stalls>>
Read ==
  /\ ~closed /\ file # <<>>
  /\ \E k \in 1 .. Len(file) : recv' = recv \o SubSeq(file, 1, k) /\ file' = SubSeq(file, k + 1, Len(file))
  /\ UNCHANGED <<pc, pend, nb, nb0, closed, err, stalls>>
Close == /\ MayClose /\ ~closed /\ closed' = TRUE
         /\ UNCHANGED <<pc, pend, file, recv, nb, nb0, err, stalls>>
Flush == Accept \/ WouldBlock \/ Broken \/ Written \/ Restore
Next == Flush \/ Read \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Flush) /\ WF_vars(Read)

InOrder == recv \o file \o pend = [i \in 1 .. Total |-> i]
Finished == pc = "done" =>
  /\ nb = nb0
  /\ (err = "" <=> pend = <<>>) /\ (err # "" => closed)
  /\ (~nb0 => stalls = 0) /\ stalls <= 1 /\ (Total <= Cap => stalls = 0)
Terminates == <>(pc = "done")
Delivered == ~MayClose => <>(recv = [i \in 1 .. Total |-> i])
=============================================================================
