------------------------------ MODULE Sha2_256 ------------------------------
(***************************************************************************)
(* FIPS 180-4 sections 4.1.2, 4.2.2, 5.3.2, 5.3.3, 6.2: the compression    *)
(* function and initial values shared by SHA-224 and SHA-256.              *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

Sha224IV == <<
  <<49413, 40664>>, <<13948, 54535>>, <<12400, 56599>>, <<63246, 22841>>,
  <<65472, 2865>>, <<26712, 5393>>, <<25849, 36775>>, <<48890, 20388>>>>
Sha256IV == <<
  <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>, <<42319, 62778>>,
  <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>, <<23520, 52505>>>>

LOCAL K == <<
  <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>, <<59829, 56229>>,
  <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>, <<43804, 24277>>,
  <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>, <<21772, 32195>>,
  <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>, <<49563, 61812>>,
  <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>, <<9228, 41420>>,
  <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>, <<30457, 35034>>,
  <<38974, 20818>>, <<43057, 50797>>, <<45059, 10184>>, <<48985, 32711>>,
  <<50912, 3059>>, <<54695, 37191>>, <<1738, 25425>>, <<5161, 10599>>,
  <<10167, 2693>>, <<11803, 8504>>, <<19756, 28156>>, <<21304, 3347>>,
  <<25866, 29524>>, <<30314, 2747>>, <<33218, 51502>>, <<37490, 11397>>,
  <<41663, 59553>>, <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
  <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
  <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
  <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
  <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
  <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>>>>

LOCAL Sum0(x) == Xor32(Xor32(Rotr32(x, 2), Rotr32(x, 13)), Rotr32(x, 22))
LOCAL Sum1(x) == Xor32(Xor32(Rotr32(x, 6), Rotr32(x, 11)), Rotr32(x, 25))
LOCAL Sig0(x) == Xor32(Xor32(Rotr32(x, 7), Rotr32(x, 18)), Shr32(x, 3))
LOCAL Sig1(x) == Xor32(Xor32(Rotr32(x, 17), Rotr32(x, 19)), Shr32(x, 10))
LOCAL Ch(x, y, z) == Xor32(And32(x, y), And32(Not32(x), z))
LOCAL Maj(x, y, z) == Xor32(Xor32(And32(x, y), And32(x, z)), And32(y, z))

LOCAL Idx == [t \in 1..48 |-> t + 16]
LOCAL Rnd == [t \in 1..64 |-> t]
LOCAL Schedule(blk) ==
    FoldLeft(LAMBDA w, t : Append(w, Add32x4(Sig1(w[t - 2]), w[t - 7],
                                             Sig0(w[t - 15]), w[t - 16])),
             blk, Idx)

Sha256Compress(h, blk) ==
    LET w == Schedule(blk)
        z == FoldLeft(LAMBDA v, t :
                 LET t1 == Add32x5(v[8], Sum1(v[5]), Ch(v[5], v[6], v[7]), K[t], w[t])
                 IN  << Add32x3(t1, Sum0(v[1]), Maj(v[1], v[2], v[3])),
                        v[1], v[2], v[3], Add32(v[4], t1), v[5], v[6], v[7] >>,
                 h, Rnd)
    IN  << Add32(h[1], z[1]), Add32(h[2], z[2]), Add32(h[3], z[3]), Add32(h[4], z[4]),
           Add32(h[5], z[5]), Add32(h[6], z[6]), Add32(h[7], z[7]), Add32(h[8], z[8]) >>
=============================================================================
