------------------------------ MODULE Sha2_512 ------------------------------
(***************************************************************************)
(* FIPS 180-4 sections 4.1.3, 4.2.3, 5.3.4 - 5.3.6, 6.4 - 6.7: the         *)
(* compression function and initial values of the SHA-512 family.  The     *)
(* initial values of SHA-512/224 and SHA-512/256 are derived with the      *)
(* SHA-512/t IV generation function rather than listed.                    *)
(***************************************************************************)
EXTENDS Bits, SequencesExt

Sha384IV == <<
  <<52155, 40285, 49413, 40664>>, <<25242, 10538, 13948, 54535>>,
  <<37209, 346, 12400, 56599>>, <<5423, 60632, 63246, 22841>>,
  <<26419, 9831, 65472, 2865>>, <<36532, 19079, 26712, 5393>>,
  <<56076, 11789, 25849, 36775>>, <<18357, 18461, 48890, 20388>>>>
Sha512IV == <<
  <<27145, 58983, 62396, 51464>>, <<47975, 44677, 33994, 42811>>,
  <<15470, 62322, 65172, 63531>>, <<42319, 62778, 24349, 14065>>,
  <<20750, 21119, 44518, 33489>>, <<39685, 26764, 11070, 27679>>,
  <<8067, 55723, 64321, 48491>>, <<23520, 52505, 4990, 8569>>>>

LOCAL K == <<
  <<17034, 12184, 55080, 44578>>, <<28983, 17553, 9199, 26061>>,
  <<46528, 64463, 60493, 15151>>, <<59829, 56229, 33161, 56252>>,
  <<14678, 49755, 62280, 46392>>, <<23025, 4593, 46597, 53273>>,
  <<37439, 33444, 44825, 20379>>, <<43804, 24277, 55917, 33048>>,
  <<55303, 43672, 41731, 578>>, <<4739, 23297, 17776, 28606>>,
  <<9265, 34238, 20196, 45708>>, <<21772, 32195, 54783, 46306>>,
  <<29374, 23924, 62075, 35183>>, <<32990, 45566, 15126, 38577>>,
  <<39900, 1703, 9671, 4661>>, <<49563, 61812, 53097, 9876>>,
  <<58523, 27073, 40689, 19154>>, <<61374, 18310, 14415, 9699>>,
  <<4033, 40390, 35724, 54709>>, <<9228, 41420, 30636, 40037>>,
  <<11753, 11375, 22827, 629>>, <<19060, 33962, 28326, 58499>>,
  <<23728, 43484, 48449, 64468>>, <<30457, 35034, 33553, 21429>>,
  <<38974, 20818, 61030, 57259>>, <<43057, 50797, 11700, 12816>>,
  <<45059, 10184, 39163, 8511>>, <<48985, 32711, 48879, 3812>>,
  <<50912, 3059, 15784, 36802>>, <<54695, 37191, 37642, 42789>>,
  <<1738, 25425, 57347, 33391>>, <<5161, 10599, 2574, 28272>>,
  <<10167, 2693, 18130, 12284>>, <<11803, 8504, 23590, 51494>>,
  <<19756, 28156, 23236, 10989>>, <<21304, 3347, 40341, 46047>>,
  <<25866, 29524, 35759, 25566>>, <<30314, 2747, 15479, 45736>>,
  <<33218, 51502, 18413, 44774>>, <<37490, 11397, 5250, 13627>>,
  <<41663, 59553, 19697, 868>>, <<43034, 26187, 48194, 12289>>,
  <<49739, 35696, 53496, 38801>>, <<51052, 20899, 1620, 48688>>,
  <<53650, 59417, 55023, 21016>>, <<54937, 1572, 21861, 43280>>,
  <<62478, 13701, 22385, 8234>>, <<4202, 41072, 12987, 53688>>,
  <<6564, 49430, 47314, 53448>>, <<7735, 27656, 20801, 43859>>,
  <<10056, 30540, 57230, 60313>>, <<13488, 48309, 57755, 18600>>,
  <<14620, 3251, 50633, 23139>>, <<20184, 43594, 58177, 35531>>,
  <<23452, 51791, 30563, 58227>>, <<26670, 28659, 54962, 47267>>,
  <<29839, 33518, 24047, 45820>>, <<30885, 25455, 17175, 12128>>,
  <<33992, 30740, 41456, 43890>>, <<36039, 520, 6756, 14828>>,
  <<37054, 65530, 9059, 7720>>, <<42064, 27883, 56962, 48617>>,
  <<48889, 41975, 45766, 30997>>, <<50801, 30962, 58226, 21291>>,
  <<51751, 16078, 59942, 24988>>, <<53638, 47303, 8640, 49671>>,
  <<60122, 32214, 52704, 60190>>, <<62845, 20351, 61038, 53624>>,
  <<1776, 26538, 29207, 28602>>, <<2659, 32197, 41672, 39078>>,
  <<4415, 38916, 48889, 3502>>, <<7025, 2869, 4892, 18203>>,
  <<10459, 30709, 8964, 32132>>, <<13002, 43899, 16583, 9363>>,
  <<15518, 48650, 5577, 48828>>, <<17181, 26564, 39952, 3404>>,
  <<19653, 54462, 52030, 17078>>, <<22911, 10652, 64613, 32298>>,
  <<24523, 28587, 15062, 64236>>, <<27716, 6540, 19015, 22551>>>>

LOCAL Sum0(x) == Xor64(Xor64(Rotr64(x, 28), Rotr64(x, 34)), Rotr64(x, 39))
LOCAL Sum1(x) == Xor64(Xor64(Rotr64(x, 14), Rotr64(x, 18)), Rotr64(x, 41))
LOCAL Sig0(x) == Xor64(Xor64(Rotr64(x, 1), Rotr64(x, 8)), Shr64(x, 7))
LOCAL Sig1(x) == Xor64(Xor64(Rotr64(x, 19), Rotr64(x, 61)), Shr64(x, 6))
LOCAL Ch(x, y, z) == Xor64(And64(x, y), And64(Not64(x), z))
LOCAL Maj(x, y, z) == Xor64(Xor64(And64(x, y), And64(x, z)), And64(y, z))

LOCAL Idx == [t \in 1..64 |-> t + 16]
LOCAL Rnd == [t \in 1..80 |-> t]
LOCAL Schedule(blk) ==
    FoldLeft(LAMBDA w, t : Append(w, Add64x4(Sig1(w[t - 2]), w[t - 7],
                                             Sig0(w[t - 15]), w[t - 16])),
             blk, Idx)

Sha512Compress(h, blk) ==
    LET w == Schedule(blk)
        z == FoldLeft(LAMBDA v, t :
                 LET t1 == Add64x5(v[8], Sum1(v[5]), Ch(v[5], v[6], v[7]), K[t], w[t])
                 IN  << Add64(t1, Add64(Sum0(v[1]), Maj(v[1], v[2], v[3]))),
                        v[1], v[2], v[3], Add64(v[4], t1), v[5], v[6], v[7] >>,
                 h, Rnd)
    IN  << Add64(h[1], z[1]), Add64(h[2], z[2]), Add64(h[3], z[3]), Add64(h[4], z[4]),
           Add64(h[5], z[5]), Add64(h[6], z[6]), Add64(h[7], z[7]), Add64(h[8], z[8]) >>

\* Section 5.3.6: IV generation.  The one-block message is "SHA-512/t" padded.
LOCAL GenIV(name) ==
    LET msg == name \o <<128>> \o [i \in 1..(119 - Len(name)) |-> 0]
                    \o <<0, 0, 0, 0, 0, 0, 0, 8 * Len(name)>>
        iv0 == [i \in 1..8 |-> Xor64(Sha512IV[i], <<42405, 42405, 42405, 42405>>)]
    IN  Sha512Compress(iv0, [i \in 1..16 |-> Be64(msg, 8 * i - 7)])
\* "SHA-512/224" and "SHA-512/256" in ASCII.
Sha512t224IV == TLCEval(GenIV(<<83, 72, 65, 45, 53, 49, 50, 47, 50, 50, 52>>))
Sha512t256IV == TLCEval(GenIV(<<83, 72, 65, 45, 53, 49, 50, 47, 50, 53, 54>>))
=============================================================================
