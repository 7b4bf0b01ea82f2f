------------------------------ MODULE Terminfo ------------------------------
(***************************************************************************)
(* Compiled terminfo entries, as term(5) has them: a header of six little  *)
(* endian 16 bit numbers; names, booleans, a byte to align if need be,     *)
(* numbers, and string capabilities: offsets into the table that follows,  *)
(* of NUL terminated strings.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
Magic == 282
LE(f, o) == IF o + 2 > Len(f) THEN -1 ELSE f[o + 1] + 256 * f[o + 2]
Field(f, i) == LE(f, 2 * i)
Strings(f) == LET n == Field(f, 1) + Field(f, 2) IN 12 + n + (n % 2) + 2 * Field(f, 3)
Table(f) == Strings(f) + 2 * Field(f, 4)
\* the header makes sense
Headed(f) == Len(f) >= 12 /\ Field(f, 0) = Magic /\ \A i \in 1 .. 5 : Field(f, i) < 32768
\* and all it tells of is there
Whole(f) == Headed(f) /\ Len(f) >= Table(f) + Field(f, 5)
Absent == "absent"
Missing == "missing"   \* not in the file
Beyond == "beyond"     \* not within the table
\* where the string of capability c is, if anywhere: <<what, from, to>>
RECURSIVE Ends(_, _)
Ends(f, i) == IF i > Len(f) THEN 0 ELSE IF f[i] = 0 THEN i ELSE Ends(f, i + 1)
Value(f, c) ==
  IF c >= Field(f, 4) THEN <<Absent, <<>>>>
  ELSE LET at == LE(f, Strings(f) + 2 * c) IN
       IF at = -1 THEN <<Missing, <<>>>>
       ELSE IF at >= 65534 THEN <<Absent, <<>>>>
       ELSE LET i == Table(f) + at + 1 e == IF i > Len(f) THEN 0 ELSE Ends(f, i) IN
            IF e = 0 THEN <<Missing, <<>>>>
            ELSE IF e > Table(f) + Field(f, 5) THEN <<Beyond, SubSeq(f, i, e - 1)>>
            ELSE <<"string", SubSeq(f, i, e - 1)>>
\* reading is an error, or must not be, or either
Fails(f, cs) == ~Headed(f) \/ \E c \in cs : Value(f, c)[1] = Missing
Reads(f, cs) == Whole(f) /\ \A c \in cs : Value(f, c)[1] \in {Absent, "string"}
=============================================================================
