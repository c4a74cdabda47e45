-------------------------------- MODULE Aead --------------------------------
(***************************************************************************)
(* AEAD_CHACHA20_POLY1305 of RFC 8439, section 2.8.                        *)
(***************************************************************************)
EXTENDS ChaCha20, Poly1305

LOCAL Zero(n) == [i \in 1..n |-> 0]
LOCAL PadTo16(n) == Zero((16 - (n % 16)) % 16)
\* 64-bit little-endian byte counts below 2^31.
LOCAL Le64Count(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216,
                        0, 0, 0, 0>>

\* milo's cipher iv for block counter c and a (fitted) 12-byte nonce.
AeadIv(nonce, c) == <<c, 0, 0, 0>> \o Fit(nonce, 12)

AeadOneTimeKey(key, nonce) == SubSeq(KeyBlock(key, AeadIv(nonce, 0), 0), 1, 32)

AeadCrypt(key, nonce, from, text) == ChaChaXor(key, AeadIv(nonce, 1), from, text)

AeadTagOver(otk, aad, ct) ==
    PolyOf(otk, aad \o PadTo16(Len(aad)) \o ct \o PadTo16(Len(ct))
                    \o Le64Count(Len(aad)) \o Le64Count(Len(ct)))

AeadTag(key, nonce, aad, ct) == AeadTagOver(TLCEval(AeadOneTimeKey(key, nonce)), aad, ct)
=============================================================================
