------------------------------ MODULE ChaCha20 ------------------------------
(***************************************************************************)
(* The ChaCha20 block function and stream cipher of RFC 8439, section 2.   *)
(* milo's 16-byte iv is the little-endian 32-bit initial block counter     *)
(* followed by the 12-byte nonce; keys and ivs are fitted to their         *)
(* nominal size by zero extension or truncation.                           *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

\* Zero-extend or truncate a byte string to n bytes.
Fit(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

LOCAL Sigma == << <<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>> >>

LOCAL QR(v, a, b, c, d) ==
    LET a1 == Add32(v[a], v[b])   d1 == Rotr32(Xor32(v[d], a1), 16)
        c1 == Add32(v[c], d1)     b1 == Rotr32(Xor32(v[b], c1), 20)
        a2 == Add32(a1, b1)       d2 == Rotr32(Xor32(d1, a2), 24)
        c2 == Add32(c1, d2)       b2 == Rotr32(Xor32(b1, c2), 25)
    IN  [v EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]

LOCAL Quads == << <<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
                  <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>> >>
LOCAL Seq80 == [i \in 1..80 |-> Quads[((i - 1) % 8) + 1]]

\* Initial state: 32-byte key, 32-bit counter as a word, 12-byte nonce.
ChaChaState(key, ctr, nonce) ==
    Sigma \o [i \in 1..8 |-> Le32(key, 4 * i - 3)] \o <<ctr>>
          \o [i \in 1..3 |-> Le32(nonce, 4 * i - 3)]

\* The 64-byte keystream block of a state.
ChaChaBlock(st) ==
    LET s == TLCEval(st)
        z == FoldLeft(LAMBDA v, q : QR(v, q[1], q[2], q[3], q[4]), s, Seq80)
    IN  FlattenSeq([i \in 1..16 |-> Le32Bytes(Add32(s[i], z[i]))])

\* The counter `ctr' advanced by n < 2^31 blocks; it wraps modulo 2^32.
CtrAdd(ctr, n) == Add32(ctr, <<n \div LIMB, n % LIMB>>)

\* Keystream block number n (0-based) of an instance with the given key and iv.
KeyBlock(key, iv, n) ==
    LET k == Fit(key, 32)  v == Fit(iv, 16)
    IN  ChaChaBlock(ChaChaState(k, CtrAdd(Le32(v, 1), n), SubSeq(v, 5, 16)))

\* Keystream bytes [from, from + len) of an instance, as a byte sequence.
Keystream(key, iv, from, len) ==
    IF len = 0 THEN <<>>
    ELSE LET b0 == from \div 64
             b1 == (from + len - 1) \div 64
             ks == FlattenSeq([i \in 1..(b1 - b0 + 1) |-> KeyBlock(key, iv, b0 + i - 1)])
         IN  SubSeq(ks, from - 64 * b0 + 1, from - 64 * b0 + len)

ChaChaXor(key, iv, from, text) ==
    LET ks == TLCEval(Keystream(key, iv, from, Len(text)))
    IN  [i \in 1..Len(text) |-> text[i] ^^ ks[i]]
=============================================================================
