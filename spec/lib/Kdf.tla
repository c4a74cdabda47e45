-------------------------------- MODULE Kdf --------------------------------
(***************************************************************************)
(* HKDF (RFC 5869) and PBKDF2 (RFC 8018, section 5.2) over HMAC.           *)
(*                                                                         *)
(* The operators ending in T work over an HMAC whose hash is shortened to  *)
(* hd bytes and whose tag is shortened to md <= hd bytes; the plain ones   *)
(* use full digests.                                                       *)
(***************************************************************************)
EXTENDS Hmac

-----------------------------------------------------------------------------
HkdfMaxSize(alg) == 255 * DigestSize(alg)

\* Extract.  A zero-length salt is equivalent to HashLen zero bytes because
\* HMAC zero-pads its key.
HkdfExtractT(alg, hd, md, salt, ikm) == First(HmacOfT(alg, hd, salt, ikm), md)
HkdfExtract(alg, salt, ikm) == HkdfExtractT(alg, DigestSize(alg), DigestSize(alg), salt, ikm)

\* T(1) .. T(n) as a sequence of digests.
HkdfBlocksT(alg, hd, md, prk, info, n) ==
    LET p == HmacPrepareT(alg, hd, prk)
    IN  FoldLeft(LAMBDA ts, i :
                    Append(ts, First(HmacWithT(alg, hd, p,
                        (IF i = 1 THEN <<>> ELSE ts[i - 1]) \o info \o <<i>>), md)),
                 <<>>, [i \in 1..n |-> i])

HkdfExpandT(alg, hd, md, prk, info, size) ==
    LET n == (size + md - 1) \div md
    IN  SubSeq(FlattenSeq(HkdfBlocksT(alg, hd, md, prk, info, n)), 1, size)

HkdfExpand(alg, prk, info, size) ==
    HkdfExpandT(alg, DigestSize(alg), DigestSize(alg), prk, info, size)

HkdfOfT(alg, hd, md, ikm, salt, info, size) ==
    HkdfExpandT(alg, hd, md, TLCEval(HkdfExtractT(alg, hd, md, salt, ikm)), info, size)
HkdfOf(alg, ikm, salt, info, size) ==
    HkdfOfT(alg, DigestSize(alg), DigestSize(alg), ikm, salt, info, size)

-----------------------------------------------------------------------------
\* The 4-byte big-endian block index.
Int4(i) == <<i \div 16777216, (i \div 65536) % 256, (i \div 256) % 256, i % 256>>

\* F(P, S, c, i) = U_1 xor ... xor U_c, where U_1 is the first.
Pbkdf2FromT(alg, hd, md, prep, first, c) ==
    LET u1 == TLCEval(first)
    IN  FoldLeft(LAMBDA a, j :
                    LET u == First(HmacWithT(alg, hd, prep, a.u), md)
                    IN  [u |-> u, t |-> XorBytes(a.t, u)],
                 [u |-> u1, t |-> u1], [j \in 1..(c - 1) |-> j]).t

Pbkdf2BlockT(alg, hd, md, prep, salt, c, i) ==
    Pbkdf2FromT(alg, hd, md, prep, First(HmacWithT(alg, hd, prep, salt \o Int4(i)), md), c)

Pbkdf2Block(alg, prep, salt, c, i) ==
    Pbkdf2BlockT(alg, DigestSize(alg), DigestSize(alg), prep, salt, c, i)

Pbkdf2OfT(alg, hd, md, pass, salt, c, size) ==
    LET n == (size + md - 1) \div md
        p == HmacPrepareT(alg, hd, pass)
    IN  SubSeq(FlattenSeq([i \in 1..n |-> Pbkdf2BlockT(alg, hd, md, p, salt, c, i)]), 1, size)

\* Bytes [from, from + n) of the output; only their blocks are computed.
Pbkdf2PieceT(alg, hd, md, pass, salt, c, from, n) ==
    LET p == HmacPrepareT(alg, hd, pass)
        a == from \div md
        z == (from + n - 1) \div md
    IN  IF n = 0 THEN <<>>
        ELSE SubSeq(FlattenSeq([i \in 1..(z - a + 1) |-> Pbkdf2BlockT(alg, hd, md, p, salt, c, a + i)]),
                    from - a * md + 1, from - a * md + n)

Pbkdf2Of(alg, pass, salt, c, size) ==
    Pbkdf2OfT(alg, DigestSize(alg), DigestSize(alg), pass, salt, c, size)
=============================================================================
