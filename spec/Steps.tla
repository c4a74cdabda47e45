-------------------------------- MODULE Steps --------------------------------
(***************************************************************************)
(* PBKDF2 (RFC 8018) over the pseudorandom function of harness/steps.cpp:  *)
(*   F(K, M) = last w digits of M + sum of the digits of K,                *)
(* modulo Base^w, on words of w digits, most significant first.  When the  *)
(* sum of K is one, the values U_1, ..., U_c which PBKDF2 combines are     *)
(* consecutive, so that block i is known in closed form for every c up to  *)
(* 2^32 - 1 and every i; StepsDesign shows that the closed form is what    *)
(* the iteration yields.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

CONSTANT Base       \* a power of two: 256 for bytes

Zeros(n) == [i \in 1 .. n |-> 0]

\* The last w digits of m, with zeros in front of a shorter one.
Last(m, w) == IF Len(m) >= w THEN SubSeq(m, Len(m) - w + 1, Len(m)) ELSE Zeros(w - Len(m)) \o m

\* a + b and a - b of w digits each, modulo Base^w.
RECURSIVE SumFrom(_, _, _, _)
SumFrom(a, b, i, c) == IF i = 0 THEN <<>>
                       ELSE LET s == a[i] + b[i] + c IN Append(SumFrom(a, b, i - 1, s \div Base), s % Base)
Sum(a, b) == SumFrom(a, b, Len(a), 0)
Less1(a) == LET ones == [i \in 1 .. Len(a) |-> Base - 1] IN Sum(a, ones)
XorOf(a, b) == [i \in 1 .. Len(a) |-> a[i] ^^ b[i]]

One(w) == [i \in 1 .. w |-> IF i = w THEN 1 ELSE 0]

\* 0 ^^ 1 ^^ ... ^^ n, for a Base which four divides.
UpTo(n) == LET w == Len(n)
               r == n[w] % 4
           IN  CASE r = 0 -> n
                 [] r = 1 -> One(w)
                 [] r = 2 -> Sum(n, One(w))
                 [] r = 3 -> Zeros(w)

\* a ^^ (a + 1) ^^ ... ^^ (a + c - 1), modulo Base^w.
Range(a, c) == XorOf(UpTo(Less1(Sum(a, c))), UpTo(Less1(a)))

\* U_1 of the block with this index, both of digits; block i after c iterations.
First(salt, index, w) == Sum(Last(salt \o index, w), One(w))
Block(salt, index, c, w) == Range(First(salt, index, w), Last(c, w))
==============================================================================
