-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* The seven hash functions of milo as functions from byte sequences to    *)
(* byte sequences (FIPS 180-4), with the Merkle-Damgard structure exposed  *)
(* so that other modules can share intermediate chaining values.           *)
(***************************************************************************)
EXTENDS Bits, SequencesExt, Sha1, Sha2_256, Sha2_512

HashAlgs == {"sha_1_160", "sha_2_224", "sha_2_256", "sha_2_384", "sha_2_512",
             "sha_2_512_224", "sha_2_512_256"}

Is64(alg) == alg \in {"sha_2_384", "sha_2_512", "sha_2_512_224", "sha_2_512_256"}

BlockSize(alg) == IF Is64(alg) THEN 128 ELSE 64

DigestSize(alg) ==
    CASE alg = "sha_1_160" -> 20
      [] alg = "sha_2_224" -> 28
      [] alg = "sha_2_256" -> 32
      [] alg = "sha_2_384" -> 48
      [] alg = "sha_2_512" -> 64
      [] alg = "sha_2_512_224" -> 28
      [] alg = "sha_2_512_256" -> 32

HashIV(alg) ==
    CASE alg = "sha_1_160" -> Sha1IV
      [] alg = "sha_2_224" -> Sha224IV
      [] alg = "sha_2_256" -> Sha256IV
      [] alg = "sha_2_384" -> Sha384IV
      [] alg = "sha_2_512" -> Sha512IV
      [] alg = "sha_2_512_224" -> Sha512t224IV
      [] alg = "sha_2_512_256" -> Sha512t256IV

\* Words of the block that starts at 0-based byte offset `o' of s.
LOCAL Words(alg, s, o) ==
    IF Is64(alg) THEN [i \in 1..16 |-> Be64(s, o + 8 * i - 7)]
                 ELSE [i \in 1..16 |-> Be32(s, o + 4 * i - 3)]

CompressAt(alg, h, s, o) ==
    LET w == TLCEval(Words(alg, s, o))
    IN  CASE alg = "sha_1_160" -> Sha1Compress(h, w)
          [] alg \in {"sha_2_224", "sha_2_256"} -> Sha256Compress(h, w)
          [] OTHER -> Sha512Compress(h, w)

\* Absorb the first n blocks of s into chaining value h.
AbsorbBlocks(alg, h, s, n) ==
    FoldLeft(LAMBDA v, i : CompressAt(alg, v, s, (i - 1) * BlockSize(alg)),
             h, [i \in 1..n |-> i])

Zeros(n) == [i \in 1..n |-> 0]

\* A byte count (given as <<hi, lo>> with lo < 2^28, total = hi * 2^28 + lo)
\* as a big-endian bit count of 8 bytes.
BitLen64(hi, lo) ==
    \* bits = hi * 2^31 + lo * 8
    LET lo8 == lo * 8                     \* < 2^31
        l4 == lo8 % LIMB
        l3 == lo8 \div LIMB + (hi % 2) * 32768   \* hi's bit 0 lands on bit 31
        l2 == (hi \div 2) % LIMB
        l1 == (hi \div 2) \div LIMB
    IN  Be64Bytes(Norm64(l1, l2, l3, l4))

\* The padding appended to a message whose length is hi * 2^28 + lo bytes.
PadBig(alg, hi, lo) ==
    LET b == BlockSize(alg)
        f == IF Is64(alg) THEN 16 ELSE 8
        r == lo % b
        z == (2 * b - r - 1 - f) % b
    IN  <<128>> \o Zeros(z) \o Zeros(f - 8) \o BitLen64(hi, lo)

Pad(alg, len) == PadBig(alg, len \div 268435456, len % 268435456)

StateBytes(alg, h) ==
    IF Is64(alg) THEN FlattenSeq([i \in 1..Len(h) |-> Be64Bytes(h[i])])
                 ELSE FlattenSeq([i \in 1..Len(h) |-> Be32Bytes(h[i])])

\* Finish: chaining value h after `done' bytes (a multiple of the block size,
\* given as hi * 2^28 + lo), then the remaining bytes `rest'.
FinishBig(alg, h, hi, lo, rest) ==
    LET n == lo + Len(rest)
        m == TLCEval(rest \o PadBig(alg, hi + n \div 268435456, n % 268435456))
    IN  SubSeq(StateBytes(alg, AbsorbBlocks(alg, h, m, Len(m) \div BlockSize(alg))),
               1, DigestSize(alg))

Finish(alg, h, done, rest) == FinishBig(alg, h, done \div 268435456, done % 268435456, rest)

HashOf(alg, msg) == Finish(alg, HashIV(alg), 0, msg)

\* The chaining values of s after 0, 1, ..., n blocks, as a 1-based sequence.
Chain(alg, s, n) ==
    FoldLeft(LAMBDA c, i : Append(c, CompressAt(alg, c[i], s, (i - 1) * BlockSize(alg))),
             <<HashIV(alg)>>, [i \in 1..n |-> i])

\* Digest of the first len bytes of s given that chain.
HashPrefix(alg, chain, s, len) ==
    LET k == len \div BlockSize(alg)
    IN  Finish(alg, chain[k + 1], k * BlockSize(alg), SubSeq(s, k * BlockSize(alg) + 1, len))
=============================================================================
