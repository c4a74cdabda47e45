------------------------------ MODULE Poly1305 ------------------------------
(***************************************************************************)
(* Poly1305 of RFC 8439, section 2.5, as arithmetic modulo 2^130 - 5.      *)
(* A field element is a sequence of ten 13-bit limbs, least significant    *)
(* first; products of limb vectors stay below 2^31.                        *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

LOCAL B13 == 8192
LOCAL P8 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096>>

\* Bytes (any length <= 17) to ten 13-bit limbs; bits past the end are zero.
PolyLimbs(s) ==
    LET at(i) == IF i <= Len(s) THEN s[i] ELSE 0
    IN  [j \in 1..10 |->
            LET o == 13 * (j - 1)
                b == o \div 8 + 1
            IN  ((at(b) + 256 * at(b + 1) + 65536 * at(b + 2)) \div P8[(o % 8) + 1]) % B13]

\* Ten reduced limbs to the low 16 bytes.
LOCAL PolyBytes16(l) ==
    [i \in 1..16 |->
        LET o == 8 * (i - 1)
            j == o \div 13 + 1
            v == l[j] + (IF j < 10 THEN (l[j + 1] % 512) * B13 ELSE 0)
        IN  (v \div P8[(o % 13) + 1]) % 256]

\* Propagate carries through a limb vector; the carry out is appended.
LOCAL Carry(v) ==
    LET r == FoldLeft(LAMBDA a, x :
                 LET t == x + a.c
                 IN  [o |-> Append(a.o, t % B13), c |-> t \div B13],
                 [o |-> <<>>, c |-> 0], v)
    IN  Append(r.o, r.c)

\* v: 11 limbs (10 carried + overflow) -> 10 limbs, value < 2^130.
LOCAL Fold(v) ==
    LET a == Carry([i \in 1..10 |-> IF i = 1 THEN v[1] + 5 * v[11] ELSE v[i]])
        b == Carry([i \in 1..10 |-> IF i = 1 THEN a[1] + 5 * a[11] ELSE a[i]])
        c == Carry([i \in 1..10 |-> IF i = 1 THEN b[1] + 5 * b[11] ELSE b[i]])
    IN  SubSeq(c, 1, 10)

PolyAdd(a, b) == Fold(Carry([i \in 1..10 |-> a[i] + b[i]]))

PolyMul(a, b) ==
    LET conv == [k \in 1..19 |->
                    FoldLeft(LAMBDA s, i :
                        IF k - i + 1 >= 1 /\ k - i + 1 <= 10 THEN s + a[i] * b[k - i + 1] ELSE s,
                        0, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10>>)]
        c == TLCEval(Carry(conv))         \* 20 limbs
    IN  Fold(Carry([i \in 1..10 |-> c[i] + 5 * c[i + 10]]))

\* Full reduction into [0, 2^130 - 5).
PolyCanon(a) ==
    IF a[1] >= 8187 /\ \A i \in 2..10 : a[i] = 8191
    THEN [i \in 1..10 |-> IF i = 1 THEN a[1] - 8187 ELSE 0]
    ELSE a

PolyZero == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
PolyOne  == <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>

LOCAL ClampMask == <<255, 255, 255, 15, 252, 255, 255, 15,
                     252, 255, 255, 15, 252, 255, 255, 15>>

\* The evaluation point r of a 32-byte one-time key.
PolyR(key) == PolyLimbs([i \in 1..16 |-> key[i] & ClampMask[i]])

\* Absorb one block (at most 16 bytes) with its end marker.
PolyBlock(h, r, blk) == PolyMul(PolyAdd(h, PolyLimbs(blk \o <<1>>)), r)

\* Absorb a whole byte string (the last block may be short).
PolyAbsorb(h, r, s) ==
    FoldLeft(LAMBDA a, i : PolyBlock(a, r, SubSeq(s, 16 * i - 15,
                               IF 16 * i > Len(s) THEN Len(s) ELSE 16 * i)),
             h, [i \in 1..((Len(s) + 15) \div 16) |-> i])

\* Add s (16 bytes) modulo 2^128.
PolyFinish(h, key) ==
    LET hb == TLCEval(PolyBytes16(PolyCanon(h)))
    IN  FoldLeft(LAMBDA a, i :
            LET t == hb[i] + key[16 + i] + a.c
            IN  [o |-> Append(a.o, t % 256), c |-> t \div 256],
            [o |-> <<>>, c |-> 0], [i \in 1..16 |-> i]).o

PolyOf(key32, msg) == PolyFinish(PolyAbsorb(PolyZero, TLCEval(PolyR(key32)), msg), key32)

\* h after absorbing the same full 16-byte block n times (n > 0), starting from
\* the value h0: h0 * r^n + b * (r + r^2 + ... + r^n), by repeated doubling.
RECURSIVE PolyGeo(_, _)
PolyGeo(r, n) ==     \* [p |-> r^n, s |-> r + ... + r^n]
    IF n = 1 THEN [p |-> r, s |-> r]
    ELSE LET g == TLCEval(PolyGeo(r, n \div 2))
             p2 == TLCEval(PolyMul(g.p, g.p))
             s2 == TLCEval(PolyAdd(g.s, PolyMul(g.s, g.p)))
         IN  IF n % 2 = 0 THEN [p |-> p2, s |-> s2]
             ELSE LET p3 == TLCEval(PolyMul(p2, r)) IN [p |-> p3, s |-> PolyAdd(s2, p3)]
PolyRepeat(h0, r, blk, n) ==
    LET g == TLCEval(PolyGeo(r, n))
    IN  PolyAdd(PolyMul(h0, g.p), PolyMul(PolyLimbs(blk \o <<1>>), g.s))
=============================================================================
