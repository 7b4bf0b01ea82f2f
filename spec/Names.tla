------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* What control functions, modes and SGR codes are by name, after ECMA-48, *)
(* DEC and xterm; and how identifiers and mouse states are described.      *)
(***************************************************************************)
EXTENDS Escape, Bitwise

\* the bytes that name them, after ESC
FunctionTable == [
   DECGON |-> "1", DECGOFF |-> "2", DECVTS |-> "3", DECCAVT |-> "4",
   DECXMT |-> "5", DECSC |-> "7", DECRC |-> "8", DECANSI |-> "<",
   DECKPAM |-> "=", DECKPNM |-> ">", ICH |-> "[@", CUU |-> "[A",
   CUD |-> "[B", CUF |-> "[C", CUB |-> "[D", CNL |-> "[E",
   CPL |-> "[F", CHA |-> "[G", CUP |-> "[H", CHT |-> "[I",
   ED |-> "[J", EL |-> "[K", IL |-> "[L", DL |-> "[M",
   EF |-> "[N", EA |-> "[O", DCH |-> "[P", SEM |-> "[Q",
   CPR |-> "[R", SU |-> "[S", SD |-> "[T", NP |-> "[U",
   PP |-> "[V", CTC |-> "[W", ECH |-> "[X", CVT |-> "[Y",
   CBT |-> "[Z", HPA |-> "[`", HPR |-> "[a", REP |-> "[b",
   DA |-> "[c", VPA |-> "[d", VPR |-> "[e", HVP |-> "[f",
   TBC |-> "[g", SM |-> "[h", MC |-> "[i", RM |-> "[l",
   SGR |-> "[m", DSR |-> "[n", DAQ |-> "[o", DECSTR |-> "[p",
   DECLL |-> "[q", DECSTBM |-> "[r", DECSTRM |-> "[s", DECSLPP |-> "[t",
   DECSHTS |-> "[u", DECSVTS |-> "[v", DECSHORP |-> "[w", DECREQTPARM |-> "[x",
   DECTST |-> "[y", DECVERP |-> "[z", DECTTC |-> "[|", DECPRO |-> "[}",
   DECKEYS |-> "[~"]
\* private modes
ModeTable == [
   ModeMouseX10 |-> 9, ModeMouseVt200 |-> 1000, ModeMouseVt200Highlight |-> 1001, ModeMouseBtnEvent |-> 1002,
   ModeMouseAnyEvent |-> 1003, ModeMouseFocusEvent |-> 1004, ModeMouseExt |-> 1005, ModeMouseSgrExt |-> 1006,
   ModeMouseUrxvtExt |-> 1015, ModeAlternateScroll |-> 1007, ModeMetaReporting |-> 1036, ModeAlternateScreen |-> 1049,
   ModeBracketedPaste |-> 2004, ShowCursor |-> 25]
CodeTable == [
   Clear |-> 0, Bold |-> 1, Dim |-> 2, Italic |-> 3, Underscore |-> 4, Slow |-> 5,
   Fast |-> 6, Negative |-> 7, Concealed |-> 8, CancelBold |-> 22, CancelUnderline |-> 24, CancelFast |-> 25,
   CancelNegative |-> 27, FGBlack |-> 30, BGBlack |-> 40, FGRed |-> 31, BGRed |-> 41, FGGreen |-> 32,
   BGGreen |-> 42, FGYellow |-> 33, BGYellow |-> 43, FGBlue |-> 34, BGBlue |-> 44, FGMagenta |-> 35,
   BGMagenta |-> 45, FGCyan |-> 36, BGCyan |-> 46, FGWhite |-> 37, BGWhite |-> 47]

C1Table == <<"<RES@>", "<RESA>", "<RESB>", "<RESC>", "<IND>", "<NEL>", "<SSA>", "<ESA>",
  "<HTS>", "<HTJ>", "<VTS>", "<PLD>", "<PLU>", "<RI>", "<SS2>", "<SS3>",
  "<DCS>", "<PU1>", "<PU2>", "<STS>", "<CCH>", "<MW>", "<SPA>", "<EPA>",
  "<RESX>", "<RESY>", "<RESZ>", "<CSI>", "<ST>", "<OSC>", "<PM>", "<APC>">>

\* how an identifier is described, as a string and its bytes
Described(id, s, b) ==
  CASE id <= 31 -> b = <<94, id + 64>>
    [] id = 127 -> b = <<94, 63>>
    [] id \in 128 .. 159 -> s = C1Table[id - 127]
    [] id = EscId(127) -> s = "ESC+INVALID"
    [] id = CsiId(127) -> s = "CSI+INVALID"
    [] id \in EscId(32) .. EscId(126) -> b = <<69, 83, 67, 43, id - EscId(0)>>
    [] id \in CsiId(64) .. CsiId(126) -> b = <<67, 83, 73, 43, id - CsiId(0)>>
    [] OTHER -> b # <<>>

Mods(s) == LET c == (s & 16) # 0  h == (s & 4) # 0  m == (s & 8) # 0 IN
  (IF c THEN "ctrl" \o (IF h \/ m THEN "+" ELSE "") ELSE "") \o (IF h THEN "shift" \o (IF m THEN "+" ELSE "") ELSE "") \o (IF m THEN "meta" ELSE "")
ButtonName(b) == IF b = 0 THEN "" ELSE <<"left", "middle", "right", "wheelUp", "wheelDown">>[b]
\* what cannot be (motion with release, or nothing released) is open
MouseNamed(s, b, motion, release, name) ==
  LET n == ButtonName(b)
      what == IF motion THEN (IF n = "" THEN "motion" ELSE n \o "-drag") ELSE IF release THEN n \o "-release" ELSE n IN
  (b <= 5 /\ ~(release /\ (motion \/ n = ""))) => name = (IF Mods(s) # "" THEN Mods(s) \o "+" \o what ELSE what)
=============================================================================
