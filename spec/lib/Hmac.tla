-------------------------------- MODULE Hmac --------------------------------
(***************************************************************************)
(* HMAC (RFC 2104 / FIPS 198-1) over each of the hash functions.           *)
(*                                                                         *)
(* The operators ending in T work over a hash function whose digest is     *)
(* shortened to its first hd bytes (milo's digest size option); the plain  *)
(* ones use the full digest.                                               *)
(***************************************************************************)
EXTENDS Hash

XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

First(s, n) == IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)

\* The key as a full block: longer keys are hashed, shorter ones zero padded.
HmacKey0T(alg, hd, key) ==
    LET k == IF Len(key) > BlockSize(alg) THEN First(HashOf(alg, key), hd) ELSE key
    IN  k \o Zeros(BlockSize(alg) - Len(k))

\* A prepared key: the chaining values after the inner and the outer pad block.
HmacPrepareT(alg, hd, key) ==
    LET k0 == TLCEval(HmacKey0T(alg, hd, key))
        ip == TLCEval([i \in 1..Len(k0) |-> k0[i] ^^ 54])
        op == TLCEval([i \in 1..Len(k0) |-> k0[i] ^^ 92])
    IN  TLCEval([inner |-> CompressAt(alg, HashIV(alg), ip, 0),
                 outer |-> CompressAt(alg, HashIV(alg), op, 0)])

\* The tag whose inner digest (before shortening) is given.
HmacOuterT(alg, hd, prep, inner) ==
    First(Finish(alg, prep.outer, BlockSize(alg), First(inner, hd)), hd)

HmacWithT(alg, hd, prep, msg) ==
    HmacOuterT(alg, hd, prep, TLCEval(Finish(alg, prep.inner, BlockSize(alg), msg)))

HmacOfT(alg, hd, key, msg) == HmacWithT(alg, hd, HmacPrepareT(alg, hd, key), msg)

HmacPrepare(alg, key) == HmacPrepareT(alg, DigestSize(alg), key)
HmacWith(alg, prep, msg) == HmacWithT(alg, DigestSize(alg), prep, msg)
HmacOf(alg, key, msg) == HmacOfT(alg, DigestSize(alg), key, msg)
=============================================================================
