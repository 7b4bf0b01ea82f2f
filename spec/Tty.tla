-------------------------------- MODULE Tty --------------------------------
(***************************************************************************)
(* What a terminal looks like to those who look at it from outside, while  *)
(* a Term is in use on it: line discipline (termios) and file flags.       *)
(*                                                                         *)
(* Termios settings are records of sets of set bits, [i, o, c, l], and     *)
(* the values of VMIN and VTIME and the list of all other characters.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Linux bit numbers
BRKINT == 1   INPCK == 4   ISTRIP == 5   ICRNL == 8   IXON == 10
OPOST == 0
CSIZE == {4, 5}   PARENB == 8
ISIG == 0   ICANON == 1   ECHO == 3   IEXTEN == 15

\* what raw mode makes of settings t
Raw(t) ==
  [t EXCEPT !.i = @ \ {BRKINT, INPCK, ISTRIP, ICRNL, IXON},
            !.o = @ \ {OPOST},
            !.c = (@ \ {PARENB}) \cup CSIZE,
            !.l = @ \ {ISIG, ICANON, ECHO, IEXTEN},
            !.min = 1, !.time = 0]
SetEcho(t, on) == [t EXCEPT !.l = IF on THEN @ \cup {ECHO} ELSE @ \ {ECHO}]

\* settings in use under RunWith, given those from before; echo is "unset"
\* until it is asked for, and then only off in raw mode for sure
Within(t, raw, echo) ==
  LET r == IF raw THEN Raw(t) ELSE t IN
  IF echo = "on" THEN {SetEcho(r, TRUE)}
  ELSE IF echo = "off" THEN {SetEcho(r, FALSE)}
  ELSE IF raw THEN {r} ELSE {r, SetEcho(r, FALSE)}

\* raw mode may turn off further conversions (IGNBRK, PARMRK, INLCR, IGNCR, ECHONL)
IsWithin(v, t, raw, echo) ==
  \E w \in Within(t, raw, echo) :
    IF raw THEN /\ v.i \subseteq w.i /\ w.i \ v.i \subseteq {0, 3, 6, 7}
                /\ v.l \subseteq w.l /\ w.l \ v.l \subseteq {6}
                /\ [v EXCEPT !.i = w.i, !.l = w.l] = w
    ELSE v = w
=============================================================================
