-------------------------------- MODULE Utf8 --------------------------------
(***************************************************************************)
(* UTF-8, a byte at a time.  pend is a proper prefix of a valid encoding.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

REPL == 65533 \* U+FFFD

Lead(b) == b >= 194 /\ b <= 244
Need(b) == IF b <= 223 THEN 2 ELSE IF b <= 239 THEN 3 ELSE 4

\* may b follow pend within one encoded rune?
Continues(pend, b) ==
  IF Len(pend) # 1 THEN b >= 128 /\ b <= 191
  ELSE CASE pend[1] = 224 -> b >= 160 /\ b <= 191
         [] pend[1] = 237 -> b >= 128 /\ b <= 159
         [] pend[1] = 240 -> b >= 144 /\ b <= 191
         [] pend[1] = 244 -> b >= 128 /\ b <= 143
         [] OTHER -> b >= 128 /\ b <= 191

Complete(p) == Len(p) = Need(p[1])

RuneOf(p) ==
  CASE Len(p) = 2 -> (p[1] - 192) * 64 + (p[2] - 128)
    [] Len(p) = 3 -> (p[1] - 224) * 4096 + (p[2] - 128) * 64 + (p[3] - 128)
    [] Len(p) = 4 -> (p[1] - 240) * 262144 + (p[2] - 128) * 4096 + (p[3] - 128) * 64 + (p[4] - 128)

\* encoding of a rune
Utf8Of(r) ==
  IF r < 128 THEN <<r>>
  ELSE IF r < 2048 THEN <<192 + r \div 64, 128 + (r % 64)>>
  ELSE IF r < 65536 THEN <<224 + r \div 4096, 128 + ((r \div 64) % 64), 128 + (r % 64)>>
  ELSE <<240 + r \div 262144, 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
=============================================================================
