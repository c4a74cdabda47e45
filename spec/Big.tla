--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size: little endian sequences of limbs below     *)
(* 1000 without leading zero limbs; <<>> is zero.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

LOCAL Base == 1000

Digit == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]

IsDecimal(s) == s # "" /\ \A i \in 1 .. Len(s) : SubSeq(s, i, i) \in DOMAIN Digit

\* Without leading zeros; at least one digit.
RECURSIVE Plain(_)
Plain(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN Plain(SubSeq(s, 2, Len(s))) ELSE s

\* Of decimals in plain form.
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == i <= Len(a) /\ LET x == Digit[SubSeq(a, i, i)]
                                        y == Digit[SubSeq(b, i, i)]
                                    IN  x < y \/ (x = y /\ LessFrom(a, b, i + 1))
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessFrom(a, b, 1))

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Small(_)
Small(s) == IF s = "" THEN 0 ELSE Small(SubSeq(s, 1, Len(s) - 1)) * 10 + Digit[SubSeq(s, Len(s), Len(s))]

RECURSIVE Limbs(_)
Limbs(s) == IF Len(s) <= 3 THEN <<Small(s)>>
            ELSE <<Small(SubSeq(s, Len(s) - 2, Len(s)))>> \o Limbs(SubSeq(s, 1, Len(s) - 3))

\* From a decimal, from a natural number.
Of(s) == Trim(Limbs(s))
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o OfNat(n \div Base)

LOCAL At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Carry(_, _, _)
Carry(a, i, c) == IF i > Len(a) THEN OfNat(c)
                  ELSE <<(a[i] + c) % Base>> \o Carry(a, i + 1, (a[i] + c) \div Base)

LOCAL Most(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

Add(a0, b0) == LET a == TLCEval(a0)
                  b == TLCEval(b0)
              IN  Trim(Carry(TLCEval([i \in 1 .. Most(a, b) |-> At(a, i) + At(b, i)]), 1, 0))

RECURSIVE Times(_, _, _)
Times(a, b, j) == IF j > Len(b) THEN <<>>
                  ELSE Add(Trim(Carry(TLCEval([i \in 1 .. Len(a) |-> a[i] * b[j]]), 1, 0)),
                           LET r == Times(a, b, j + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)
Mul(a, b) == Times(TLCEval(a), TLCEval(b), 1)

RECURSIVE LeFrom(_, _, _)
LeFrom(a, b, i) == i = 0 \/ a[i] < b[i] \/ (a[i] = b[i] /\ LeFrom(a, b, i - 1))
Le(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LeFrom(a, b, Len(a)))

RECURSIVE Pow10(_)
Pow10(k) == IF k >= 3 THEN <<0>> \o Pow10(k - 3) ELSE <<CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100>>

\* Whether the decimal m * 10^e (m a decimal, e an integer) is a/b up to rounding: one part in
\* 10^5, or half a unit of the sixth decimal place.
Close(m, e, a, b) ==
    LET k == IF e < 0 THEN 0 - e ELSE 0
        x == Mul(Mul(Of(m), Pow10(IF e > 0 THEN e ELSE 0)), b)      \* both scaled by b * 10^k
        y == Mul(a, Pow10(k))
        Apart(q, t) == Le(Mul(x, q), Add(Mul(y, q), t)) /\ Le(Mul(y, q), Add(Mul(x, q), t))
    IN  \/ Apart(Pow10(5), y)
        \/ Apart(Pow10(6), Mul(b, Pow10(k)))
=============================================================================
