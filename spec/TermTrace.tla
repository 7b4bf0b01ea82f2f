----------------------------- MODULE TermTrace -----------------------------
(***************************************************************************)
(* Judges recorded executions of Term and Contexts.                        *)
(***************************************************************************)
EXTENDS Lifecycle, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, cs
vars == <<l, s, cs>>
\* cs: the contexts of each composition made so far
Init == l = 1 /\ s = Start(0, <<>>) /\ cs = <<>>

Reset(e) == e.ev = "reset" /\ s' = Start(e.n, e.cl) /\ cs' = <<>>
Life(e) == e.ev = "life" /\ e.bad = "" /\ s' \in After(s, e) /\ UNCHANGED cs
\* contexts can only be added to a terminal that is not in use
Add(e) ==
  /\ e.ev = "add" /\ (e.bad # "") = s.under /\ UNCHANGED cs
  /\ s' = IF s.under THEN s
          ELSE [s EXCEPT !.n = @ + Len(e.cl), !.cl = @ \o e.cl,
                !.in = @ \o [i \in 1 .. Len(e.cl) |-> FALSE], !.cn = @ \o [i \in 1 .. Len(e.cl) |-> 0]]

\* parts: <<>> is nil, <<i>> context i, <<0, c>> composition c
Part(p) == IF p = <<>> THEN <<>> ELSE IF p[1] > 0 THEN p ELSE cs[p[2]]
Make(e) ==
  /\ e.ev = "mk" /\ e.bad = "" /\ UNCHANGED s
  /\ cs' = Append(cs, Cat([i \in 1 .. Len(e.parts) |-> Part(e.parts[i])]))
  /\ e.nil <=> cs'[Len(cs')] = <<>>
Run(e) ==
  /\ e.ev = "run" /\ e.bad = "" /\ UNCHANGED <<s, cs>>
  /\ LET F == {e.fails[i] : i \in 1 .. Len(e.fails)}
         q == Calls(cs[e.c], e.op, F, [i \in 1 .. 6 |-> i % 2 = 0]) IN
     e.calls = q /\ e.err = FirstOf(q, F)
Next == l <= Len(Trace) /\ l' = l + 1 /\ LET e == Trace[l] IN Reset(e) \/ Life(e) \/ Add(e) \/ Make(e) \/ Run(e)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
