---------------------------- MODULE RenderTrace ----------------------------
(***************************************************************************)
(* Judges recorded executions of the real screen renderer: the bytes that  *)
(* reached the terminal are run through Terminal.tla, and after each       *)
(* completed flush the terminal has to show the frame that was flushed.    *)
(***************************************************************************)
EXTENDS Terminal, TLC, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,      \* next trace line
  term,   \* the terminal
  pend,   \* frame whose output is partly written: [k |-> "none" | "frame" | "stale"]
  sync    \* the terminal showed exactly the last flushed frame, and still does

vars == <<l, term, pend, sync>>

None == [k |-> "none"]
NoTerm == NewTerm(1, 1, <<BlankCell>>, FALSE)
Init == l = 1 /\ term = NoTerm /\ pend = None /\ sync = FALSE

Frame(e) == [k |-> "frame", gw |-> e.gw, gh |-> e.gh, g |-> e.g, u |-> e.u]

\* after the screen was resized or garbled, a frame in flight no longer counts
Stale == IF pend.k = "none" THEN pend ELSE [k |-> "stale"]

Reset(e) ==
  /\ e.ev = "reset"
  /\ term' = NewTerm(e.w, e.h, e.cells, e.bce)
  /\ pend' = None /\ sync' = FALSE

Edit(e) ==
  /\ e.ev = "edit" /\ e.bad = ""
  /\ UNCHANGED term
  /\ pend' = IF e.what = "resize" THEN Stale ELSE pend
  /\ sync' = (sync /\ e.what # "resize")

TermResize(e) ==
  /\ e.ev = "tsize" /\ e.bad = ""
  /\ term' = [term EXCEPT !.w = e.w, !.h = e.h, !.c = e.cells, !.x = e.x, !.y = e.y,
                          !.pend = FALSE]
  /\ pend' = Stale /\ sync' = FALSE

Garble(e) ==
  /\ e.ev = "garble" /\ e.bad = ""
  /\ term' = [term EXCEPT !.c = e.cells, !.x = e.x, !.y = e.y, !.pend = FALSE]
  /\ pend' = Stale /\ sync' = FALSE

\* a differential update: only cells that changed are written, nothing is erased
OnlyChanges(e) ==
  /\ Cardinality({i \in 1 .. Len(e.toks) : e.toks[i][1] = 0}) <=
       Cardinality({i \in 1 .. term.w * term.h :
                     LET x == ((i - 1) % term.w) + 1
                         y == ((i - 1) \div term.w) + 1 IN
                     x <= e.gw /\ y <= e.gh /\ term.c[i] # Shown(e.g[(y - 1) * e.gw + x])})
  /\ \A i \in 1 .. Len(e.toks) : ~(e.toks[i][1] = 2 /\ e.toks[i][2] \in {74, 75, 88})

InSync(t, f) == ShowsGrid(t, f.gw, f.gh, f.g) /\ ShowsCursor(t, f.u)

Flush(e) ==
  /\ e.ev = "flush" /\ e.bad = ""
  /\ e.n = e.nb
  /\ term' = TermRun(term, e.toks)
  /\ CASE e.res = "ok" ->
            /\ e.rest = 0
            /\ ~term'.bad
            /\ pend.k # "stale" =>
                 InSync(term', IF pend.k = "none" THEN Frame(e) ELSE pend)
            /\ (sync /\ pend.k = "none") => OnlyChanges(e)
            /\ pend' = None /\ sync' = (pend.k # "stale")
       [] e.res = "again" ->
            /\ pend' = IF pend.k = "none" THEN Frame(e) ELSE pend
            /\ sync' = FALSE
       [] e.res = "err" ->
            pend' = None /\ sync' = FALSE

\* leaving the terminal restores its cursor, whatever was (partly) written
Exit(e) ==
  /\ e.ev = "exit" /\ e.bad = "" /\ e.err = "" /\ e.rest = 0
  /\ term' = TermRun(term, e.toks)
  /\ ~term'.bad /\ term'.a = AttrZero /\ term'.v
  /\ \A i \in 1 .. Len(e.toks) : e.toks[i][1] = 0 => e.toks[i][2] = 65533 \* a rune that was cut
  /\ pend' = None /\ sync' = (sync /\ pend.k = "none")

Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l] IN Reset(e) \/ Edit(e) \/ TermResize(e) \/ Garble(e) \/ Flush(e) \/ Exit(e)
  /\ l' = l + 1

Spec == Init /\ [][Next]_vars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
