------------------------------ MODULE EmuTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of the virtual screen's terminal emulation.  *)
(***************************************************************************)
EXTENDS Emu, Decoder, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Known(id) == ("KF_" \o id) \in DOMAIN IOEnv

VARIABLES l, s, m
vars == <<l, s, m>>

Init == l = 1 /\ s = NewEmu(0, 0) /\ m = Ground

Cells(cs) == [i \in 1 .. Len(cs) |-> <<cs[i][1], SansClear(cs[i][2]), cs[i][3], cs[i][4]>>]
Shows(e, q) ==
  /\ e.bad = ""
  /\ e.x = q.x /\ e.y = q.y /\ Norm(e.a) = q.a /\ e.v = q.v
  /\ Cells(e.c) = q.c

Reset(e) ==
  /\ e.ev = "reset"
  /\ s' = NewEmu(e.w, e.h) /\ m' = Ground

Write(e) ==
  /\ e.ev = "write" /\ e.n = Len(e.b)
  /\ LET r == Run(m, e.b)
         q == EmuRun(s, r.o, TRUE)
         k == EmuRun(s, r.o, FALSE) IN
     /\ m' = r.m
     /\ IF Shows(e, q) THEN s' = q
        ELSE /\ Known("scroll") /\ Shows(e, k)
             /\ s' = k /\ PrintT("KNOWN scroll")

\* sets the attribute; a change cuts short whatever sequence was being written
Sgr1(e) ==
  /\ e.ev = "sgr"
  /\ s' = [s EXCEPT !.a = Norm(e.attrs[Len(e.attrs)])]
  /\ m' \in IF m.u = <<>> /\ s.a # s'.a THEN {Ground} ELSE {m, Ground}
  /\ Shows(e, s')
To(e) ==
  /\ e.ev = "to"
  /\ s' = EmuTo(s, e.px, e.py) /\ UNCHANGED m
  /\ Shows(e, s')
Clear(e) ==
  /\ e.ev = "clear"
  /\ s' = NewEmu(s.w, s.h) /\ UNCHANGED m
  /\ Shows(e, s')
\* where content goes on a resize is not specified; the cursor stays if it can
Resize(e) ==
  /\ e.ev = "resize"
  /\ Len(e.c) = e.w * e.h
  /\ LET p == [NewEmu(e.w, e.h) EXCEPT !.c = Cells(e.c), !.a = s.a, !.v = s.v] IN
     s' = IF s.x \in 1 .. e.w /\ s.y \in 1 .. e.h THEN [p EXCEPT !.x = s.x, !.y = s.y] ELSE p
  /\ UNCHANGED m
  /\ Shows(e, s')

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN Reset(e) \/ Write(e) \/ Sgr1(e) \/ To(e) \/ Clear(e) \/ Resize(e)
  /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
