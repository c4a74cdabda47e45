-------------------------------- MODULE Long --------------------------------
(***************************************************************************)
(* Chaining values after very many zero bytes, in units of 2^28 bytes: for *)
(* hash functions of the bare message, for HMAC of the inner pad block of  *)
(* the empty key followed by the message.  They are too long for TLC to    *)
(* compute; each was computed with independent software and is bound to    *)
(* the definitions of Hash.tla by an assumption below: finishing it with   *)
(* the bytes 1, 2, 3 yields the digest that OpenSSL computes.              *)
(***************************************************************************)
EXTENDS Hmac

LongUnits == {2, 16}

LongTab == (
  <<"hash", "sha_1_160", 2>> :> <<<<14313, 13142>>, <<19099, 12623>>, <<44892, 25246>>, <<21905, 41001>>, <<21788, 34759>>>>  @@
  <<"hash", "sha_1_160", 16>> :> <<<<54992, 52432>>, <<29564, 18253>>, <<12569, 52416>>, <<53608, 57108>>, <<15652, 21438>>>>  @@
  <<"hash", "sha_2_224", 2>> :> <<<<8006, 59223>>, <<5625, 23233>>, <<62720, 57575>>, <<61465, 63407>>, <<29727, 53868>>, <<5745, 40196>>, <<13326, 63320>>, <<24213, 62944>>>>  @@
  <<"hash", "sha_2_224", 16>> :> <<<<54066, 25737>>, <<10710, 26374>>, <<52153, 37048>>, <<59749, 16754>>, <<22044, 2861>>, <<38241, 19987>>, <<57335, 34936>>, <<17873, 59543>>>>  @@
  <<"hash", "sha_2_256", 2>> :> <<<<49556, 21270>>, <<3792, 15888>>, <<19984, 25833>>, <<12171, 1618>>, <<58663, 29869>>, <<1630, 41513>>, <<51651, 49734>>, <<3596, 49266>>>>  @@
  <<"hash", "sha_2_256", 16>> :> <<<<36862, 18664>>, <<65128, 5525>>, <<1748, 39326>>, <<58033, 44108>>, <<15963, 38204>>, <<54776, 48021>>, <<59400, 11598>>, <<36341, 59802>>>>  @@
  <<"hash", "sha_2_384", 2>> :> <<<<17949, 1172, 62030, 29295>>, <<11277, 563, 47862, 33202>>, <<26889, 50800, 1392, 30432>>, <<56679, 25977, 42392, 40174>>, <<11483, 40055, 14197, 44025>>, <<39602, 37039, 43733, 43574>>, <<58095, 57313, 51726, 59868>>, <<9393, 6294, 50390, 19361>>>>  @@
  <<"hash", "sha_2_384", 16>> :> <<<<30546, 23214, 26382, 15440>>, <<23125, 45280, 13090, 57314>>, <<26930, 50002, 43976, 25253>>, <<7040, 30305, 18201, 44879>>, <<24897, 32907, 12434, 10833>>, <<7777, 59855, 17853, 37945>>, <<3484, 60154, 3715, 10276>>, <<65324, 26780, 37333, 43081>>>>  @@
  <<"hash", "sha_2_512", 2>> :> <<<<61443, 49015, 7210, 24489>>, <<64831, 65060, 48971, 12388>>, <<51663, 9721, 23523, 52509>>, <<46145, 1154, 61776, 36312>>, <<28474, 45662, 14928, 2613>>, <<18359, 50011, 22041, 5853>>, <<45227, 21328, 11493, 26927>>, <<37610, 10460, 9482, 56344>>>>  @@
  <<"hash", "sha_2_512", 16>> :> <<<<44437, 63356, 24500, 37785>>, <<64323, 8647, 44214, 3198>>, <<55809, 26794, 4900, 18040>>, <<50758, 17825, 38227, 62743>>, <<53506, 60092, 46813, 10466>>, <<5167, 40326, 4940, 7654>>, <<13123, 48798, 29755, 54183>>, <<56628, 44671, 58251, 18636>>>>  @@
  <<"hash", "sha_2_512_224", 2>> :> <<<<38141, 7661, 47919, 32610>>, <<14908, 31001, 35763, 30160>>, <<60216, 11743, 61164, 34951>>, <<13014, 63689, 27104, 28625>>, <<24947, 29282, 24366, 46457>>, <<60873, 22188, 12972, 58249>>, <<60369, 4057, 13849, 29385>>, <<5178, 1634, 64819, 24384>>>>  @@
  <<"hash", "sha_2_512_224", 16>> :> <<<<31807, 38197, 26887, 57166>>, <<17389, 39861, 11965, 53586>>, <<34509, 22036, 51438, 55371>>, <<1996, 450, 9952, 20652>>, <<12819, 62908, 42560, 36236>>, <<43519, 49715, 3920, 11606>>, <<34162, 43284, 912, 10854>>, <<60081, 59068, 42029, 28293>>>>  @@
  <<"hash", "sha_2_512_256", 2>> :> <<<<37027, 1018, 44065, 16922>>, <<33169, 3718, 19499, 7296>>, <<64620, 13372, 243, 46085>>, <<14414, 56815, 50971, 13887>>, <<60715, 54634, 43677, 23211>>, <<62577, 3967, 20424, 8418>>, <<8823, 20444, 47095, 17034>>, <<63453, 46588, 45319, 43475>>>>  @@
  <<"hash", "sha_2_512_256", 16>> :> <<<<60504, 1085, 31571, 52231>>, <<7193, 43211, 6754, 60550>>, <<26366, 38960, 23399, 35075>>, <<13735, 62797, 42900, 24129>>, <<46555, 47570, 458, 47697>>, <<42506, 58064, 11084, 5717>>, <<45492, 40383, 22839, 6204>>, <<60163, 60494, 39348, 11196>>>>  @@
  <<"hmac", "sha_1_160", 2>> :> <<<<42799, 40791>>, <<55679, 44368>>, <<46283, 56834>>, <<16232, 33954>>, <<37665, 6426>>>>  @@
  <<"hmac", "sha_1_160", 16>> :> <<<<11480, 45047>>, <<12440, 39399>>, <<58326, 25617>>, <<20701, 9564>>, <<12874, 47748>>>>  @@
  <<"hmac", "sha_2_224", 2>> :> <<<<55572, 57997>>, <<13022, 64195>>, <<13984, 29316>>, <<29811, 7028>>, <<5417, 5511>>, <<1813, 34821>>, <<25199, 62942>>, <<31813, 41992>>>>  @@
  <<"hmac", "sha_2_224", 16>> :> <<<<15335, 30423>>, <<22494, 45181>>, <<41075, 38531>>, <<912, 64823>>, <<21781, 59441>>, <<25299, 53801>>, <<546, 35992>>, <<58536, 38570>>>>  @@
  <<"hmac", "sha_2_256", 2>> :> <<<<33647, 21309>>, <<64562, 40740>>, <<19389, 1723>>, <<31340, 33449>>, <<57271, 43384>>, <<30327, 29189>>, <<57784, 23002>>, <<61353, 18022>>>>  @@
  <<"hmac", "sha_2_256", 16>> :> <<<<62981, 14625>>, <<15955, 23131>>, <<9563, 42354>>, <<48110, 64137>>, <<58728, 48250>>, <<37542, 56261>>, <<17272, 46040>>, <<58719, 20901>>>>  @@
  <<"hmac", "sha_2_384", 2>> :> <<<<61000, 39139, 27643, 34098>>, <<63981, 42025, 64933, 24787>>, <<49341, 50995, 48898, 25068>>, <<18626, 55844, 59388, 40435>>, <<12, 11713, 24534, 43923>>, <<8484, 49697, 19672, 44906>>, <<55993, 2616, 53472, 4596>>, <<37483, 31008, 12813, 13091>>>>  @@
  <<"hmac", "sha_2_384", 16>> :> <<<<48521, 28117, 49135, 16753>>, <<49407, 49518, 32047, 46240>>, <<42087, 24566, 52455, 53585>>, <<40468, 11776, 49768, 25247>>, <<64640, 51038, 60063, 34380>>, <<8506, 42135, 9538, 13624>>, <<58238, 26178, 29088, 49011>>, <<48672, 51865, 12722, 39009>>>>  @@
  <<"hmac", "sha_2_512", 2>> :> <<<<2589, 19787, 49567, 17125>>, <<47385, 30193, 53035, 9675>>, <<34513, 7968, 3024, 14208>>, <<40589, 22205, 29528, 45292>>, <<10797, 61028, 20979, 2013>>, <<46766, 17131, 58877, 37992>>, <<18600, 52498, 60339, 54816>>, <<48061, 8092, 21366, 42685>>>>  @@
  <<"hmac", "sha_2_512", 16>> :> <<<<28588, 30042, 40770, 23176>>, <<56718, 36342, 14937, 19378>>, <<34495, 55910, 16819, 12013>>, <<16561, 58508, 34614, 27710>>, <<44401, 44427, 4173, 7653>>, <<7098, 53775, 59419, 9706>>, <<33923, 48300, 20193, 28578>>, <<54064, 1969, 65158, 48482>>>>  @@
  <<"hmac", "sha_2_512_224", 2>> :> <<<<9829, 8723, 42059, 2460>>, <<48138, 13178, 52773, 8831>>, <<29874, 32824, 13017, 4867>>, <<50671, 15987, 56711, 62987>>, <<8074, 1439, 6914, 51774>>, <<48550, 23766, 59349, 47135>>, <<15028, 10090, 786, 51541>>, <<23070, 13649, 24440, 50496>>>>  @@
  <<"hmac", "sha_2_512_224", 16>> :> <<<<31351, 21855, 12584, 26584>>, <<25316, 30025, 12706, 62480>>, <<24796, 54288, 53961, 14617>>, <<50540, 38042, 23178, 55543>>, <<64260, 14277, 20514, 11879>>, <<30637, 18685, 35775, 17334>>, <<39228, 53693, 41355, 54115>>, <<43434, 14012, 40875, 26159>>>>  @@
  <<"hmac", "sha_2_512_256", 2>> :> <<<<20383, 29918, 55773, 59499>>, <<65506, 49799, 36735, 59927>>, <<56556, 57719, 40491, 51431>>, <<7523, 48611, 8022, 8751>>, <<7842, 23855, 29470, 24532>>, <<46565, 2817, 48934, 49014>>, <<61781, 10485, 54444, 51638>>, <<64130, 60109, 7238, 23692>>>>  @@
  <<"hmac", "sha_2_512_256", 16>> :> <<<<61508, 37154, 37642, 53301>>, <<59933, 19606, 63373, 5223>>, <<24974, 11102, 28960, 31154>>, <<46010, 41509, 2521, 381>>, <<13099, 57873, 4398, 19315>>, <<63726, 61376, 11369, 22315>>, <<44116, 18645, 14449, 60862>>, <<5180, 15694, 49873, 47691>>>>  )

\* Digests of those units of zero bytes followed by 1, 2, 3.
LongAnswers == (
  <<"hash", "sha_1_160", 2>> :> <<151, 64, 238, 175, 137, 102, 188, 22, 110, 102, 244, 45, 61, 58, 38, 18, 25, 178, 170, 147>>  @@
  <<"hash", "sha_1_160", 16>> :> <<50, 221, 68, 119, 106, 61, 63, 45, 2, 47, 236, 62, 174, 8, 247, 120, 236, 169, 57, 84>>  @@
  <<"hash", "sha_2_224", 2>> :> <<225, 166, 12, 200, 79, 207, 201, 39, 90, 219, 16, 230, 108, 133, 169, 54, 249, 122, 167, 158, 172, 224, 86, 243, 175, 74, 11, 100>>  @@
  <<"hash", "sha_2_224", 16>> :> <<125, 21, 119, 218, 240, 160, 18, 168, 154, 87, 15, 234, 211, 169, 182, 137, 182, 41, 70, 119, 170, 79, 90, 207, 96, 185, 135, 9>>  @@
  <<"hash", "sha_2_256", 2>> :> <<134, 195, 56, 220, 201, 40, 252, 198, 58, 193, 128, 181, 161, 246, 223, 108, 89, 245, 172, 64, 158, 221, 150, 106, 20, 110, 101, 112, 42, 43, 140, 16>>  @@
  <<"hash", "sha_2_256", 16>> :> <<118, 142, 232, 188, 51, 161, 16, 175, 121, 244, 68, 6, 186, 146, 77, 40, 246, 62, 82, 40, 156, 69, 20, 31, 247, 44, 200, 12, 161, 80, 211, 237>>  @@
  <<"hash", "sha_2_384", 2>> :> <<158, 98, 64, 191, 1, 140, 136, 147, 224, 55, 128, 131, 132, 184, 113, 104, 49, 33, 116, 248, 228, 38, 63, 173, 163, 252, 58, 238, 244, 255, 100, 129, 43, 99, 194, 132, 212, 202, 242, 45, 199, 51, 102, 77, 183, 192, 161, 111>>  @@
  <<"hash", "sha_2_384", 16>> :> <<229, 236, 206, 101, 223, 36, 132, 43, 248, 107, 195, 225, 170, 81, 174, 215, 105, 25, 12, 65, 65, 100, 121, 12, 234, 146, 133, 3, 10, 82, 18, 121, 74, 135, 159, 12, 46, 167, 35, 195, 92, 79, 183, 117, 154, 221, 74, 202>>  @@
  <<"hash", "sha_2_512", 2>> :> <<208, 125, 103, 95, 119, 74, 161, 113, 149, 73, 129, 55, 11, 190, 143, 222, 188, 240, 227, 118, 157, 13, 255, 180, 255, 135, 209, 90, 171, 212, 228, 163, 219, 200, 172, 40, 147, 55, 74, 168, 207, 67, 245, 184, 28, 162, 23, 167, 246, 135, 152, 38, 59, 152, 157, 123, 220, 236, 218, 70, 32, 245, 32, 255>>  @@
  <<"hash", "sha_2_512", 16>> :> <<83, 42, 143, 199, 219, 189, 165, 58, 180, 16, 197, 98, 240, 43, 64, 22, 53, 134, 237, 211, 130, 176, 242, 121, 158, 122, 191, 70, 188, 155, 94, 25, 32, 169, 190, 140, 123, 228, 193, 103, 126, 126, 183, 102, 97, 175, 47, 252, 195, 62, 49, 31, 40, 252, 1, 162, 252, 228, 51, 159, 56, 139, 93, 48>>  @@
  <<"hash", "sha_2_512_224", 2>> :> <<235, 124, 117, 56, 185, 184, 121, 131, 172, 51, 254, 228, 91, 177, 248, 91, 159, 205, 52, 120, 85, 9, 27, 35, 15, 60, 146, 167>>  @@
  <<"hash", "sha_2_512_224", 16>> :> <<253, 162, 122, 55, 195, 48, 115, 187, 221, 210, 36, 25, 14, 194, 141, 183, 254, 12, 146, 92, 123, 82, 99, 192, 35, 45, 73, 234>>  @@
  <<"hash", "sha_2_512_256", 2>> :> <<242, 37, 105, 143, 118, 147, 100, 175, 160, 176, 45, 199, 105, 34, 87, 172, 143, 67, 56, 165, 125, 200, 63, 15, 87, 222, 159, 69, 134, 133, 67, 181>>  @@
  <<"hash", "sha_2_512_256", 16>> :> <<215, 172, 219, 223, 7, 127, 14, 19, 162, 212, 185, 242, 118, 251, 184, 162, 71, 172, 209, 106, 150, 61, 10, 245, 153, 209, 59, 106, 165, 164, 225, 75>>  @@
  <<"hmac", "sha_1_160", 2>> :> <<153, 33, 255, 225, 198, 144, 187, 131, 85, 62, 87, 6, 254, 244, 240, 69, 60, 251, 138, 241>>  @@
  <<"hmac", "sha_1_160", 16>> :> <<150, 40, 151, 68, 118, 4, 184, 121, 246, 92, 150, 124, 93, 149, 227, 39, 113, 100, 164, 179>>  @@
  <<"hmac", "sha_2_224", 2>> :> <<186, 56, 40, 39, 155, 51, 106, 107, 236, 107, 69, 58, 141, 17, 185, 35, 78, 218, 92, 85, 77, 112, 34, 170, 93, 42, 92, 105>>  @@
  <<"hmac", "sha_2_224", 16>> :> <<155, 239, 20, 6, 96, 108, 78, 248, 255, 223, 139, 207, 131, 217, 133, 124, 229, 65, 44, 112, 152, 97, 168, 68, 167, 96, 119, 111>>  @@
  <<"hmac", "sha_2_256", 2>> :> <<25, 37, 165, 107, 197, 31, 95, 27, 250, 119, 250, 162, 4, 48, 114, 163, 195, 200, 24, 135, 71, 162, 223, 237, 167, 242, 110, 195, 138, 4, 40, 67>>  @@
  <<"hmac", "sha_2_256", 16>> :> <<42, 156, 92, 211, 99, 144, 94, 244, 126, 71, 96, 39, 246, 5, 87, 31, 93, 14, 239, 98, 69, 2, 7, 72, 226, 135, 201, 142, 228, 20, 93, 228>>  @@
  <<"hmac", "sha_2_384", 2>> :> <<180, 1, 104, 134, 209, 106, 120, 94, 64, 242, 123, 115, 188, 208, 13, 34, 151, 120, 143, 238, 67, 152, 151, 89, 86, 27, 127, 14, 41, 32, 67, 135, 174, 46, 103, 8, 192, 145, 25, 179, 103, 69, 11, 98, 49, 65, 97, 159>>  @@
  <<"hmac", "sha_2_384", 16>> :> <<142, 245, 251, 97, 232, 1, 154, 206, 238, 172, 112, 131, 52, 148, 22, 184, 198, 66, 129, 152, 38, 110, 3, 45, 17, 171, 196, 43, 26, 45, 48, 152, 171, 208, 249, 214, 138, 18, 219, 184, 221, 152, 26, 221, 52, 203, 177, 61>>  @@
  <<"hmac", "sha_2_512", 2>> :> <<140, 7, 62, 153, 216, 122, 99, 226, 78, 22, 107, 63, 205, 159, 136, 205, 15, 183, 180, 175, 79, 19, 169, 214, 8, 94, 22, 159, 115, 213, 165, 145, 40, 5, 172, 38, 32, 254, 197, 105, 15, 252, 57, 135, 161, 110, 103, 169, 178, 73, 32, 23, 64, 25, 88, 1, 163, 235, 191, 48, 206, 236, 36, 66>>  @@
  <<"hmac", "sha_2_512", 16>> :> <<35, 35, 162, 212, 13, 7, 123, 230, 231, 119, 247, 102, 133, 235, 200, 121, 155, 204, 93, 181, 232, 106, 92, 101, 177, 202, 2, 237, 202, 132, 235, 6, 78, 71, 252, 230, 101, 68, 203, 150, 163, 243, 164, 133, 45, 206, 147, 64, 31, 252, 59, 72, 141, 85, 161, 148, 120, 149, 239, 132, 137, 95, 247, 243>>  @@
  <<"hmac", "sha_2_512_224", 2>> :> <<120, 225, 193, 15, 194, 140, 173, 20, 249, 57, 231, 104, 232, 133, 66, 6, 235, 74, 47, 43, 32, 87, 74, 58, 175, 81, 190, 116>>  @@
  <<"hmac", "sha_2_512_224", 16>> :> <<137, 138, 133, 136, 124, 39, 132, 249, 32, 199, 74, 145, 65, 47, 245, 26, 223, 8, 180, 55, 187, 122, 8, 145, 8, 177, 19, 131>>  @@
  <<"hmac", "sha_2_512_256", 2>> :> <<7, 13, 66, 208, 220, 4, 23, 148, 220, 158, 64, 22, 183, 5, 130, 172, 189, 98, 46, 242, 222, 98, 35, 117, 143, 66, 83, 131, 182, 93, 230, 52>>  @@
  <<"hmac", "sha_2_512_256", 16>> :> <<218, 18, 119, 230, 42, 22, 246, 55, 102, 255, 40, 159, 126, 113, 150, 6, 2, 1, 35, 24, 192, 101, 246, 154, 199, 155, 105, 119, 82, 151, 89, 111>>)

LongHmac(alg, hd, units, rest) ==
    HmacOuterT(alg, hd, HmacPrepareT(alg, hd, <<>>),
               FinishBig(alg, LongTab[<<"hmac", alg, units>>], units, BlockSize(alg), rest))

LongFinish(kind, alg, units, rest) ==
    IF kind = "hash"
    THEN FinishBig(alg, LongTab[<<kind, alg, units>>], units, 0, rest)
    ELSE LongHmac(alg, DigestSize(alg), units, rest)

\* Keys derived by PBKDF2 with so many iterations, computed with OpenSSL: the
\* first 20 bytes for the password "milo" and the salt "salt".
LongPassword == <<109, 105, 108, 111>>
LongSalt == <<115, 97, 108, 116>>
LongKeys == (
  <<"sha_1_160", 3>> :> <<225, 97, 10, 3, 104, 154, 76, 173, 192, 91, 160, 6, 56, 212, 209, 156, 178, 163, 182, 167>> @@
  <<"sha_1_160", 257>> :> <<77, 134, 165, 203, 64, 193, 217, 172, 248, 217, 22, 56, 129, 141, 40, 152, 29, 210, 154, 178>> @@
  <<"sha_1_160", 65537>> :> <<20, 22, 67, 135, 166, 201, 183, 40, 163, 150, 23, 116, 102, 4, 37, 35, 152, 168, 155, 171>> @@
  <<"sha_1_160", 1048577>> :> <<181, 232, 70, 253, 53, 222, 216, 47, 30, 194, 45, 212, 156, 19, 36, 146, 255, 18, 20, 100>> @@
  <<"sha_2_224", 3>> :> <<225, 116, 203, 241, 245, 100, 11, 34, 17, 223, 146, 222, 219, 118, 219, 42, 4, 197, 54, 224>> @@
  <<"sha_2_224", 257>> :> <<155, 123, 131, 23, 164, 36, 85, 144, 248, 37, 205, 53, 239, 226, 250, 252, 175, 4, 155, 216>> @@
  <<"sha_2_224", 65537>> :> <<125, 227, 91, 253, 89, 96, 86, 44, 226, 249, 101, 68, 68, 84, 64, 35, 136, 64, 1, 210>> @@
  <<"sha_2_224", 1048577>> :> <<66, 164, 2, 71, 87, 170, 172, 76, 14, 53, 208, 191, 42, 221, 207, 244, 147, 16, 212, 4>> @@
  <<"sha_2_256", 3>> :> <<56, 79, 121, 161, 161, 176, 132, 19, 97, 141, 54, 40, 227, 248, 215, 165, 172, 56, 53, 240>> @@
  <<"sha_2_256", 257>> :> <<38, 254, 149, 56, 227, 241, 181, 21, 94, 60, 184, 188, 4, 169, 168, 105, 160, 244, 214, 16>> @@
  <<"sha_2_256", 65537>> :> <<51, 223, 184, 151, 245, 203, 23, 36, 90, 156, 152, 4, 79, 78, 135, 192, 135, 68, 254, 181>> @@
  <<"sha_2_256", 1048577>> :> <<238, 185, 246, 76, 155, 203, 111, 53, 34, 170, 202, 8, 112, 213, 118, 123, 79, 180, 169, 189>> @@
  <<"sha_2_384", 3>> :> <<1, 98, 63, 100, 58, 99, 27, 63, 148, 63, 102, 223, 87, 164, 95, 164, 75, 95, 86, 12>> @@
  <<"sha_2_384", 257>> :> <<60, 71, 67, 69, 162, 177, 224, 99, 56, 122, 115, 67, 48, 122, 64, 132, 88, 137, 129, 10>> @@
  <<"sha_2_384", 65537>> :> <<87, 180, 207, 70, 244, 110, 197, 29, 60, 89, 142, 226, 46, 178, 151, 60, 189, 125, 133, 53>> @@
  <<"sha_2_384", 1048577>> :> <<94, 23, 57, 187, 254, 250, 144, 222, 231, 193, 114, 97, 92, 151, 229, 72, 62, 8, 140, 49>> @@
  <<"sha_2_512", 3>> :> <<246, 247, 121, 40, 68, 190, 62, 59, 252, 19, 40, 188, 60, 23, 253, 177, 129, 247, 74, 216>> @@
  <<"sha_2_512", 257>> :> <<141, 26, 58, 120, 14, 191, 242, 236, 150, 75, 232, 122, 172, 83, 201, 56, 107, 117, 26, 91>> @@
  <<"sha_2_512", 65537>> :> <<49, 214, 199, 177, 208, 182, 6, 110, 231, 204, 74, 64, 66, 136, 12, 207, 124, 134, 251, 220>> @@
  <<"sha_2_512", 1048577>> :> <<138, 18, 150, 249, 149, 172, 180, 67, 166, 130, 150, 142, 60, 81, 124, 31, 232, 118, 252, 216>> @@
  <<"sha_2_512_224", 3>> :> <<194, 186, 139, 153, 20, 116, 9, 103, 150, 229, 74, 193, 136, 26, 170, 245, 170, 79, 79, 13>> @@
  <<"sha_2_512_224", 257>> :> <<244, 194, 75, 205, 45, 212, 58, 106, 166, 90, 38, 230, 68, 206, 237, 248, 241, 172, 58, 27>> @@
  <<"sha_2_512_224", 65537>> :> <<169, 32, 1, 85, 186, 193, 235, 225, 122, 217, 65, 155, 129, 248, 116, 37, 149, 204, 34, 136>> @@
  <<"sha_2_512_224", 1048577>> :> <<1, 11, 135, 40, 17, 63, 155, 123, 116, 149, 199, 227, 12, 157, 183, 90, 39, 147, 4, 61>> @@
  <<"sha_2_512_256", 3>> :> <<76, 99, 228, 0, 127, 37, 191, 186, 229, 218, 44, 123, 181, 49, 189, 5, 107, 10, 62, 52>> @@
  <<"sha_2_512_256", 257>> :> <<13, 63, 144, 178, 45, 229, 35, 63, 240, 0, 121, 177, 138, 139, 49, 167, 71, 197, 209, 123>> @@
  <<"sha_2_512_256", 65537>> :> <<245, 104, 71, 242, 18, 15, 24, 208, 115, 149, 130, 180, 215, 48, 11, 74, 161, 111, 193, 171>> @@
  <<"sha_2_512_256", 1048577>> :> <<137, 8, 72, 193, 167, 221, 36, 244, 241, 11, 134, 234, 107, 253, 41, 75, 162, 93, 218, 250>> @@
  <<"sha_1_160", 16777217>> :> <<57, 151, 144, 96, 220, 254, 121, 103, 244, 254, 16, 99, 222, 120, 17, 101, 244, 200, 62, 191>> @@
  <<"sha_2_224", 16777217>> :> <<147, 54, 48, 241, 89, 73, 142, 42, 89, 78, 24, 4, 100, 24, 213, 40, 107, 218, 165, 24>> @@
  <<"sha_2_256", 16777217>> :> <<209, 238, 45, 64, 177, 29, 20, 128, 129, 16, 29, 141, 36, 68, 71, 246, 245, 63, 137, 193>>)

\* Tags of ChaCha20-Poly1305 for the message of so many units and bytes of
\* zeros, no additional data, and key and nonce 0, 1, 2, ..., from OpenSSL.
LongAeadKey == [i \in 1..32 |-> i - 1]
LongAeadIv == [i \in 1..12 |-> i - 1]
LongTags == (
  <<0, 100>> :> <<194, 113, 72, 130, 114, 199, 8, 173, 203, 6, 34, 47, 125, 143, 159, 170>> @@
  <<2, 3>> :> <<152, 219, 15, 168, 223, 236, 154, 53, 13, 168, 79, 231, 49, 118, 222, 16>> @@
  <<16, 3>> :> <<86, 129, 253, 194, 255, 14, 146, 61, 10, 201, 238, 36, 98, 116, 193, 179>>)
=============================================================================
