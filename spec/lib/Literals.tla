------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* Spellings of string literals: from the characters between the quotes of *)
(* a source text to the characters that they denote (C++, [lex.ccon]).     *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Hex(c) == CASE c \in 48..57  -> c - 48
                  [] c \in 65..70  -> c - 55
                  [] c \in 97..102 -> c - 87
                  [] OTHER -> -1
LOCAL Octal(c) == IF c \in 48..55 THEN c - 48 ELSE -1

\* n t r a b f v \ ' " ?
Simple == [c \in {110, 116, 114, 97, 98, 102, 118, 92, 39, 34, 63} |->
    CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 114 -> 13 [] c = 97 -> 7 [] c = 98 -> 8
      [] c = 102 -> 12 [] c = 118 -> 11 [] OTHER -> c]

\* Value and end of the digits from position i on.
RECURSIVE HexFrom(_, _, _)
HexFrom(t, i, v) == IF i <= Len(t) /\ Hex(t[i]) >= 0 THEN HexFrom(t, i + 1, 16 * v + Hex(t[i])) ELSE <<v, i>>
RECURSIVE OctalFrom(_, _, _, _)
OctalFrom(t, i, v, k) == IF k > 0 /\ i <= Len(t) /\ Octal(t[i]) >= 0 THEN OctalFrom(t, i + 1, 8 * v + Octal(t[i]), k - 1) ELSE <<v, i>>

RECURSIVE SpelledFrom(_, _)
SpelledFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # 92 THEN <<t[i]>> \o SpelledFrom(t, i + 1)
    ELSE IF t[i + 1] = 120 THEN LET x == HexFrom(t, i + 2, 0) IN <<x[1]>> \o SpelledFrom(t, x[2])
    ELSE IF Octal(t[i + 1]) >= 0 THEN LET x == OctalFrom(t, i + 1, 0, 3) IN <<x[1]>> \o SpelledFrom(t, x[2])
    ELSE <<Simple[t[i + 1]]>> \o SpelledFrom(t, i + 2)

\* The characters of a literal: raw ones stand for themselves.
Spelled(t, raw) == IF raw THEN t ELSE SpelledFrom(t, 1)
=============================================================================
