-------------------------------- MODULE Sha1 --------------------------------
(***************************************************************************)
(* FIPS 180-4 sections 4.1.1, 4.2.1, 5.3.1, 6.1: the SHA-1 compression     *)
(* function on 16-word blocks of 32-bit words.                             *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

Sha1IV == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>,
             <<4146, 21622>>, <<50130, 57840>> >>

LOCAL KT(t) == CASE t < 20 -> <<23170, 31129>>
            [] t < 40 -> <<28377, 60321>>
            [] t < 60 -> <<36635, 48348>>
            [] OTHER  -> <<51810, 49622>>

LOCAL FT(t, b, c, d) ==
    CASE t < 20 -> Xor32(And32(b, c), And32(Not32(b), d))
      [] t < 40 -> Xor32(Xor32(b, c), d)
      [] t < 60 -> Xor32(Xor32(And32(b, c), And32(b, d)), And32(c, d))
      [] OTHER  -> Xor32(Xor32(b, c), d)

LOCAL Ext(w, t) ==
    Append(w, Rotl32(Xor32(Xor32(w[t - 3], w[t - 8]),
                           Xor32(w[t - 14], w[t - 16])), 1))
LOCAL Idx == [t \in 1..64 |-> t + 16]
LOCAL Rnd == [t \in 1..80 |-> t]
LOCAL Schedule(blk) == FoldLeft(LAMBDA w, t : Ext(w, t), blk, Idx)

\* One application of the compression function; h has 5 words.
Sha1Compress(h, blk) ==
    LET w == Schedule(blk)
        z == FoldLeft(LAMBDA v, t :
                 << Add32x5(Rotl32(v[1], 5), FT(t - 1, v[2], v[3], v[4]),
                            v[5], KT(t - 1), w[t]),
                    v[1], Rotl32(v[2], 30), v[3], v[4] >>, h, Rnd)
    IN  << Add32(h[1], z[1]), Add32(h[2], z[2]), Add32(h[3], z[3]),
           Add32(h[4], z[4]), Add32(h[5], z[5]) >>
=============================================================================
