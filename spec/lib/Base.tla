-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* Base-16 and Base-64 (RFC 4648, sections 4 and 8) over byte sequences.   *)
(* Text is a sequence of character codes in 0..255.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

-----------------------------------------------------------------------------
\* Base-16.  milo writes lower case, reads both cases, and reads text of odd
\* length as if a leading "0" had been omitted.
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 87 + v
HexValue(c) == CASE c \in 48..57  -> c - 48
                 [] c \in 65..70  -> c - 55
                 [] c \in 97..102 -> c - 87
                 [] OTHER -> -1

Base16Encode(s) ==
    [i \in 1..(2 * Len(s)) |->
        LET b == s[(i + 1) \div 2] IN HexDigit(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]

Base16Valid(t) == \A i \in 1..Len(t) : HexValue(t[i]) >= 0

Base16Size(n) == (n + 1) \div 2

Base16Decode(t) ==      \* for valid t
    LET u == IF Len(t) % 2 = 1 THEN <<48>> \o t ELSE t
    IN  [i \in 1..(Len(u) \div 2) |-> 16 * HexValue(u[2 * i - 1]) + HexValue(u[2 * i])]

\* What decoding any text delivers: all of it, or the bytes before the first
\* pair of characters that are not both digits.
Base16Result(t) ==
    LET u == IF Len(t) % 2 = 1 THEN <<48>> \o t ELSE t
        n == Len(u) \div 2
        bad == {i \in 1..n : HexValue(u[2 * i - 1]) < 0 \/ HexValue(u[2 * i]) < 0}
        k == IF bad = {} THEN n ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
    IN  [ok |-> bad = {}, b |-> Base16Decode(SubSeq(u, 1, 2 * k))]

-----------------------------------------------------------------------------
\* Base-64 with padding.
LOCAL EQ == 61
B64Digit(v) == CASE v < 26 -> 65 + v
                 [] v \in 26..51 -> 71 + v
                 [] v \in 52..61 -> v - 4
                 [] v = 62 -> 43
                 [] v = 63 -> 47
B64Value(c) == CASE c \in 65..90  -> c - 65
                 [] c \in 97..122 -> c - 71
                 [] c \in 48..57  -> c + 4
                 [] c = 43 -> 62
                 [] c = 47 -> 63
                 [] OTHER -> -1

Base64Encode(s) ==
    LET n == (Len(s) + 2) \div 3
        at(i) == IF i <= Len(s) THEN s[i] ELSE 0
        quad(g) ==
            LET a == at(3 * g - 2)  b == at(3 * g - 1)  c == at(3 * g)
            IN  << B64Digit(a \div 4),
                   B64Digit((a % 4) * 16 + b \div 16),
                   IF 3 * g - 1 <= Len(s) THEN B64Digit((b % 16) * 4 + c \div 64) ELSE EQ,
                   IF 3 * g <= Len(s) THEN B64Digit(c % 64) ELSE EQ >>
    IN  [i \in 1..(4 * n) |-> quad((i + 3) \div 4)[((i - 1) % 4) + 1]]

\* Number of trailing padding characters (at most two count).
B64Pads(t) == IF Len(t) >= 1 /\ t[Len(t)] = EQ
              THEN IF Len(t) >= 2 /\ t[Len(t) - 1] = EQ THEN 2 ELSE 1
              ELSE 0

Base64Valid(t) ==
    /\ Len(t) % 4 = 0
    /\ \A i \in 1..(Len(t) - B64Pads(t)) : B64Value(t[i]) >= 0

Base64Decode(t) ==      \* for valid t; spare bits of the last digit are ignored
    LET p == B64Pads(t)
        v(i) == IF i <= Len(t) - p THEN B64Value(t[i]) ELSE 0
        tri(g) ==
            LET a == v(4 * g - 3)  b == v(4 * g - 2)  c == v(4 * g - 1)  d == v(4 * g)
            IN  << a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + d >>
    IN  [i \in 1..(3 * (Len(t) \div 4) - p) |-> tri((i + 2) \div 3)[((i - 1) % 3) + 1]]

\* What decoding any text delivers: all of it, nothing if the length is not a
\* multiple of four, or else the bytes before the first malformed group.
Base64Result(t) ==
    LET n == Len(t) \div 4
        p == B64Pads(t)
        bad == {g \in 1..n : \E i \in (4 * g - 3)..(4 * g) :
                    B64Value(t[i]) < 0 /\ i <= Len(t) - p}
        k == (CHOOSE g \in bad : \A j \in bad : g <= j) - 1
    IN  IF Len(t) % 4 # 0 THEN [ok |-> FALSE, b |-> <<>>]
        ELSE IF bad = {} THEN [ok |-> TRUE, b |-> Base64Decode(t)]
        ELSE [ok |-> FALSE, b |-> Base64Decode(SubSeq(t, 1, 4 * k))]

EncodedSize(codec, n) == IF codec = "base_16" THEN 2 * n ELSE 4 * ((n + 2) \div 3)
=============================================================================
