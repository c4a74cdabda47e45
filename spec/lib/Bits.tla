-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Fixed-width machine words for TLC.                                      *)
(*                                                                         *)
(* TLC integers are 32-bit and signed, so a 32-bit word is a pair          *)
(* <<hi, lo>> of 16-bit limbs and a 64-bit word a 4-tuple of 16-bit limbs, *)
(* most significant limb first.  Every operator is total on such words.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC

LIMB == 65536

P2 == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>

------------------------------------------------------------------------
\* 32-bit words.

W32(hi, lo) == <<hi, lo>>

Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
And32(a, b) == <<a[1] & b[1], a[2] & b[2]>>
Or32(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
Not32(a)    == <<65535 - a[1], 65535 - a[2]>>

Add32(a, b) ==
    LET l == a[2] + b[2]
    IN  <<(a[1] + b[1] + l \div LIMB) % LIMB, l % LIMB>>

\* Sum of a sequence of up to 2^14 words (fixed arities keep TLC fast).
Add32x3(a, b, c) ==
    LET l == a[2] + b[2] + c[2]
    IN  <<(a[1] + b[1] + c[1] + l \div LIMB) % LIMB, l % LIMB>>
Add32x4(a, b, c, d) ==
    LET l == a[2] + b[2] + c[2] + d[2]
    IN  <<(a[1] + b[1] + c[1] + d[1] + l \div LIMB) % LIMB, l % LIMB>>
Add32x5(a, b, c, d, e) ==
    LET l == a[2] + b[2] + c[2] + d[2] + e[2]
    IN  <<(a[1] + b[1] + c[1] + d[1] + e[1] + l \div LIMB) % LIMB, l % LIMB>>

\* Rotations and shifts right by 0 < n < 32.
Rotr32(a, n) ==
    IF n = 16 THEN <<a[2], a[1]>>
    ELSE IF n < 16
    THEN LET d == P2[n]  m == P2[16 - n]
         IN  <<a[1] \div d + (a[2] % d) * m, a[2] \div d + (a[1] % d) * m>>
    ELSE LET d == P2[n - 16]  m == P2[32 - n]
         IN  <<a[2] \div d + (a[1] % d) * m, a[1] \div d + (a[2] % d) * m>>
Rotl32(a, n) == Rotr32(a, 32 - n)
Shr32(a, n) ==
    IF n = 16 THEN <<0, a[1]>>
    ELSE IF n < 16
    THEN LET d == P2[n]  m == P2[16 - n]
         IN  <<a[1] \div d, a[2] \div d + (a[1] % d) * m>>
    ELSE <<0, a[1] \div P2[n - 16]>>

\* Bytes <-> words.  `s' is a byte sequence and `i' the 1-based offset.
Be32(s, i) == <<s[i] * 256 + s[i + 1], s[i + 2] * 256 + s[i + 3]>>
Le32(s, i) == <<s[i + 3] * 256 + s[i + 2], s[i + 1] * 256 + s[i]>>
Be32Bytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Le32Bytes(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>

------------------------------------------------------------------------
\* 64-bit words.

Xor64(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
And64(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
Not64(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>

Norm64(l1, l2, l3, l4) ==
    LET m4 == l4
        m3 == l3 + m4 \div LIMB
        m2 == l2 + m3 \div LIMB
        m1 == l1 + m2 \div LIMB
    IN  <<m1 % LIMB, m2 % LIMB, m3 % LIMB, m4 % LIMB>>

Add64(a, b) == Norm64(a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4])
Add64x4(a, b, c, d) ==
    Norm64(a[1] + b[1] + c[1] + d[1], a[2] + b[2] + c[2] + d[2],
           a[3] + b[3] + c[3] + d[3], a[4] + b[4] + c[4] + d[4])
Add64x5(a, b, c, d, e) ==
    Norm64(a[1] + b[1] + c[1] + d[1] + e[1], a[2] + b[2] + c[2] + d[2] + e[2],
           a[3] + b[3] + c[3] + d[3] + e[3], a[4] + b[4] + c[4] + d[4] + e[4])

\* Rotate right by whole limbs, then by r bits (0 < r < 16).
RotLimbs64(a, k) ==
    CASE k = 0 -> a
      [] k = 1 -> <<a[4], a[1], a[2], a[3]>>
      [] k = 2 -> <<a[3], a[4], a[1], a[2]>>
      [] k = 3 -> <<a[2], a[3], a[4], a[1]>>
Rotr64(a, n) ==
    LET b == RotLimbs64(a, n \div 16)
        r == n % 16
    IN  IF r = 0 THEN b
        ELSE LET d == P2[r]  m == P2[16 - r]
             IN  <<b[1] \div d + (b[4] % d) * m, b[2] \div d + (b[1] % d) * m,
                   b[3] \div d + (b[2] % d) * m, b[4] \div d + (b[3] % d) * m>>
\* Shift right by 0 < n < 16.
Shr64(a, n) ==
    LET d == P2[n]  m == P2[16 - n]
    IN  <<a[1] \div d, a[2] \div d + (a[1] % d) * m,
          a[3] \div d + (a[2] % d) * m, a[4] \div d + (a[3] % d) * m>>

Be64(s, i) == <<s[i] * 256 + s[i + 1], s[i + 2] * 256 + s[i + 3],
                s[i + 4] * 256 + s[i + 5], s[i + 6] * 256 + s[i + 7]>>
Be64Bytes(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256,
                  w[3] \div 256, w[3] % 256, w[4] \div 256, w[4] % 256>>

=============================================================================
