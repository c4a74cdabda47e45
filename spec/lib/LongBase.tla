------------------------------ MODULE LongBase ------------------------------
(***************************************************************************)
(* Base-16 and Base-64 of very long inputs: zeros, and texts of one digit  *)
(* of value zero with another ending.  Sizes are pairs [u, n]: u units and *)
(* n more (numbers of TLC have 32 bits); a unit is a multiple of 4.        *)
(* CodecDesign checks all of this against Base.tla with small units.       *)
(***************************************************************************)
EXTENDS Base

UPair(unit, u, n) == [u |-> u + n \div unit, n |-> n % unit]

LOCAL Rep(x, k) == [i \in 1..k |-> x]
LOCAL LastOf(s, k) == SubSeq(s, Len(s) - (IF k < Len(s) THEN k ELSE Len(s)) + 1, Len(s))

\* The digit of value zero.
ZeroDigit(codec) == IF codec = "base_16" THEN 48 ELSE 65

LOCAL Thirds(unit, u, n) == [q |-> u * (unit \div 3) + ((unit % 3) * u + n) \div 3,
                             r |-> ((unit % 3) * u + n) % 3]

\* Of the code of u units and n bytes.
LongEncodedSize(codec, unit, u, n) ==
    IF codec = "base_16" THEN UPair(unit, 2 * u, 2 * n)
    ELSE LET t == Thirds(unit, u, n)
             g == t.q + (IF t.r > 0 THEN 1 ELSE 0)
         IN  [u |-> g \div (unit \div 4), n |-> 4 * (g % (unit \div 4))]

\* The last k characters of the code of that many zeros, at least k of them.
LongEncodedEnd(codec, unit, u, n, k) ==
    IF codec = "base_16" THEN Rep(48, k)
    ELSE LET r == Thirds(unit, u, n).r
             p == IF r = 0 THEN 0 ELSE 3 - r
         IN  LastOf(Rep(65, k) \o Rep(61, p), k)

\* The text is digits of value zero, u units and n more, then the ending v; the whole groups at
\* its end which v touches are decoded by Base.tla.  At most k of the last bytes are told.
LongDecoded(codec, unit, u, n, v, k) ==
    LET w == IF codec = "base_16" THEN 2 ELSE 4
        Z == ZeroDigit(codec)
        \* characters in the last groups
        s == IF Len(v) = 0 THEN w ELSE ((Len(v) + w - 1) \div w) * w
        fill == s - Len(v)                  \* taken from the zeros before; u > 0
        rest == IF n >= fill THEN [u |-> u, n |-> n - fill] ELSE [u |-> u - 1, n |-> n + unit - fill]
        x == IF codec = "base_16" THEN Base16Result(Rep(Z, fill) \o v) ELSE Base64Result(Rep(Z, fill) \o v)
        bytes == IF codec = "base_16"
                 THEN UPair(unit, rest.u \div 2, (rest.u % 2) * (unit \div 2) + (rest.n + 1) \div 2)
                 ELSE UPair(unit, (3 * rest.u) \div 4, ((3 * rest.u) % 4) * (unit \div 4) + 3 * (rest.n \div 4))
    IN  IF codec = "base_64" /\ (n + Len(v)) % 4 # 0 THEN [ok |-> FALSE, size |-> [u |-> 0, n |-> 0], last |-> <<>>]
        ELSE [ok |-> x.ok, size |-> UPair(unit, bytes.u, bytes.n + Len(x.b)), last |-> LastOf(Rep(0, k) \o x.b, k)]
=============================================================================
