----------------------------- MODULE AeadDesign -----------------------------
(***************************************************************************)
(* How ChaCha20-Poly1305 feeds its MAC: additional data, padding when the  *)
(* first encryption, decryption or digest comes (aead::apie's flag for it),*)
(* ciphertext, padding, lengths, once (finalization flag).  Bytes are      *)
(* represented by their names; P is the padding unit.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS P, Limit, Chunks

VARIABLES aad, ct,              \* bytes given
          mac,                  \* bytes fed to the MAC
          over, fin,            \* additional data padded, finalized
          tag                   \* MAC input of the tag last delivered, or <<>>

vars == <<aad, ct, mac, over, fin, tag>>

Zeros(n) == [i \in 1..n |-> 0]
PadOf(n) == Zeros((P - (n % P)) % P)
A(n, k) == [i \in 1..k |-> <<"a", n + i>>]
C(n, k) == [i \in 1..k |-> <<"c", n + i>>]

Init == aad = 0 /\ ct = 0 /\ mac = <<>> /\ over = FALSE /\ fin = FALSE /\ tag = <<>>

Aad(k) == /\ ~over /\ ~fin /\ aad + k <= Limit
          /\ mac' = mac \o A(aad, k)
          /\ aad' = aad + k
          /\ UNCHANGED <<ct, over, fin, tag>>

OverMac == IF over THEN mac ELSE mac \o PadOf(aad)

Crypt(k) == /\ ~fin /\ ct + k <= Limit
            /\ mac' = OverMac \o C(ct, k)
            /\ ct' = ct + k /\ over' = TRUE
            /\ UNCHANGED <<aad, fin, tag>>

Lengths == <<<<"la", aad>>, <<"lc", ct>>>>

Digest == /\ IF fin THEN UNCHANGED <<mac, over, fin>>
             ELSE /\ mac' = OverMac \o PadOf(ct) \o Lengths
                  /\ over' = TRUE /\ fin' = TRUE
          /\ tag' = mac'
          /\ UNCHANGED <<aad, ct>>

Next == Digest \/ \E k \in Chunks : Aad(k) \/ Crypt(k)
Spec == Init /\ [][Next]_vars

\* RFC 8439, section 2.8: the same for every slicing, also without any
\* message, without additional data, and for repeated digests.
Authenticated == tag # <<>> =>
    tag = A(0, aad) \o PadOf(aad) \o C(0, ct) \o PadOf(ct) \o Lengths
=============================================================================
