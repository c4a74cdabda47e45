---------------------------- MODULE KnownAnswers ----------------------------
(* Published test vectors (FIPS 180-4, RFC 2202, 4231, 4648, 5869, 6070,     *)
(* 8439) and vectors computed with independent software, as assumptions that *)
(* TLC evaluates: they show that the functions of spec/lib, which every      *)
(* other module uses as the meaning of the algorithms, are the standard ones.*)
EXTENDS Kdf, Aead, Base, Long

VARIABLE done
Init == done = TRUE
Next == UNCHANGED done

\* sha1,  0 bytes
ASSUME HashOf("sha_1_160",  <<>>) = <<218, 57, 163, 238, 94, 107, 75, 13, 50, 85, 191, 239, 149, 96,
  24, 144, 175, 216, 7, 9>>
\* sha1,  3 bytes
ASSUME HashOf("sha_1_160",  <<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113,
  120, 80, 194, 108, 156, 208, 216, 157>>
\* sha1,  56 bytes
ASSUME HashOf("sha_1_160",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102,
  103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106,
  107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110,
  111, 112, 113>>) = <<132, 152, 62, 68, 28, 59, 210, 110, 186, 174, 74, 161, 249, 81, 41, 229, 229,
  70, 112, 241>>
\* sha1,  111 bytes
ASSUME HashOf("sha_1_160",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<188,
  84, 78, 36, 87, 61, 89, 34, 144, 253, 175, 248, 236, 243, 247, 242, 176, 12, 212, 131>>
\* sha1,  112 bytes
ASSUME HashOf("sha_1_160",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) =
  <<228, 206, 20, 45, 9, 168, 74, 134, 69, 51, 141, 214, 83, 92, 191, 170, 248, 0, 211, 32>>
\* sha1,  64 bytes
ASSUME HashOf("sha_1_160",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<198, 19,
  141, 81, 79, 250, 33, 53, 191, 206, 14, 208, 184, 250, 198, 86, 105, 145, 126, 199>>
\* sha1,  128 bytes
ASSUME HashOf("sha_1_160",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
  113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<230, 67, 75, 196,
  1, 249, 134, 3, 215, 237, 165, 4, 121, 12, 152, 198, 115, 133, 213, 53>>
\* sha1,  112 bytes
ASSUME HashOf("sha_1_160",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103, 104,
  105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102, 103,
  104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107, 108,
  109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112, 106,
  107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110, 111,
  112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115, 116,
  117>>) = <<164, 155, 36, 70, 160, 44, 100, 91, 244, 25, 249, 149, 182, 112, 145, 37, 58, 4, 162,
  89>>
\* sha224,  0 bytes
ASSUME HashOf("sha_2_224",  <<>>) = <<209, 74, 2, 140, 42, 58, 43, 201, 71, 97, 2, 187, 40, 130, 52,
  196, 21, 162, 176, 31, 130, 142, 166, 42, 197, 179, 228, 47>>
\* sha224,  3 bytes
ASSUME HashOf("sha_2_224",  <<97, 98, 99>>) = <<35, 9, 125, 34, 52, 5, 216, 34, 134, 66, 164, 119,
  189, 162, 85, 179, 42, 173, 188, 228, 189, 160, 179, 247, 227, 108, 157, 167>>
\* sha224,  56 bytes
ASSUME HashOf("sha_2_224",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102,
  103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106,
  107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110,
  111, 112, 113>>) = <<117, 56, 139, 22, 81, 39, 118, 204, 93, 186, 93, 161, 253, 137, 1, 80, 176,
  198, 69, 92, 180, 245, 139, 25, 82, 82, 37, 37>>
\* sha224,  111 bytes
ASSUME HashOf("sha_2_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<26,
  238, 245, 131, 196, 72, 169, 174, 0, 251, 201, 49, 181, 11, 192, 218, 91, 184, 50, 62, 97, 107,
  17, 7, 108, 238, 139, 68>>
\* sha224,  112 bytes
ASSUME HashOf("sha_2_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) =
  <<1, 229, 171, 245, 6, 25, 181, 194, 7, 142, 117, 78, 221, 237, 207, 77, 232, 211, 17, 133, 162,
  33, 147, 19, 203, 145, 168, 201>>
\* sha224,  64 bytes
ASSUME HashOf("sha_2_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<195, 123,
  136, 163, 82, 45, 191, 122, 195, 13, 28, 104, 234, 57, 122, 193, 29, 71, 115, 87, 26, 237, 1, 221,
  171, 115, 83, 30>>
\* sha224,  128 bytes
ASSUME HashOf("sha_2_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
  113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<103, 216, 141,
  163, 63, 214, 50, 216, 116, 36, 36, 121, 29, 250, 206, 103, 47, 245, 157, 89, 127, 227, 139, 63,
  42, 153, 131, 134>>
\* sha224,  112 bytes
ASSUME HashOf("sha_2_224",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103, 104,
  105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102, 103,
  104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107, 108,
  109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112, 106,
  107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110, 111,
  112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115, 116,
  117>>) = <<201, 124, 169, 165, 89, 133, 12, 233, 122, 4, 169, 109, 239, 109, 153, 169, 224, 224,
  226, 171, 20, 230, 184, 223, 38, 95, 192, 179>>
\* sha256,  0 bytes
ASSUME HashOf("sha_2_256",  <<>>) = <<227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153,
  111, 185, 36, 39, 174, 65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85>>
\* sha256,  3 bytes
ASSUME HashOf("sha_2_256",  <<97, 98, 99>>) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64,
  222, 93, 174, 34, 35, 176, 3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
\* sha256,  56 bytes
ASSUME HashOf("sha_2_256",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102,
  103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106,
  107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110,
  111, 112, 113>>) = <<36, 141, 106, 97, 210, 6, 56, 184, 229, 192, 38, 147, 12, 62, 96, 57, 163,
  60, 228, 89, 100, 255, 33, 103, 246, 236, 237, 212, 25, 219, 6, 193>>
\* sha256,  111 bytes
ASSUME HashOf("sha_2_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<96,
  120, 14, 148, 81, 189, 196, 60, 244, 83, 15, 252, 149, 203, 176, 196, 235, 36, 218, 226, 195, 159,
  85, 243, 52, 214, 121, 224, 118, 192, 128, 101>>
\* sha256,  112 bytes
ASSUME HashOf("sha_2_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) =
  <<9, 55, 63, 18, 125, 52, 230, 29, 187, 170, 139, 196, 73, 156, 135, 7, 79, 45, 219, 16, 225, 180,
  101, 245, 6, 215, 215, 10, 21, 1, 25, 121>>
\* sha256,  64 bytes
ASSUME HashOf("sha_2_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<253, 234,
  185, 172, 243, 113, 3, 98, 189, 38, 88, 205, 201, 162, 158, 143, 156, 117, 127, 207, 152, 17, 96,
  58, 140, 68, 124, 209, 217, 21, 17, 8>>
\* sha256,  128 bytes
ASSUME HashOf("sha_2_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
  113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<71, 31, 185, 67,
  170, 35, 197, 17, 246, 247, 47, 141, 22, 82, 217, 200, 128, 207, 163, 146, 173, 128, 80, 49, 32,
  84, 119, 3, 229, 106, 43, 229>>
\* sha256,  112 bytes
ASSUME HashOf("sha_2_256",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103, 104,
  105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102, 103,
  104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107, 108,
  109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112, 106,
  107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110, 111,
  112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115, 116,
  117>>) = <<207, 91, 22, 167, 120, 175, 131, 128, 3, 108, 229, 158, 123, 4, 146, 55, 11, 36, 155,
  17, 232, 240, 122, 81, 175, 172, 69, 3, 122, 254, 233, 209>>
\* sha384,  0 bytes
ASSUME HashOf("sha_2_384",  <<>>) = <<56, 176, 96, 167, 81, 172, 150, 56, 76, 217, 50, 126, 177,
  177, 227, 106, 33, 253, 183, 17, 20, 190, 7, 67, 76, 12, 199, 191, 99, 246, 225, 218, 39, 78, 222,
  191, 231, 111, 101, 251, 213, 26, 210, 241, 72, 152, 185, 91>>
\* sha384,  3 bytes
ASSUME HashOf("sha_2_384",  <<97, 98, 99>>) = <<203, 0, 117, 63, 69, 163, 94, 139, 181, 160, 61,
  105, 154, 198, 80, 7, 39, 44, 50, 171, 14, 222, 209, 99, 26, 139, 96, 90, 67, 255, 91, 237, 128,
  134, 7, 43, 161, 231, 204, 35, 88, 186, 236, 161, 52, 200, 37, 167>>
\* sha384,  56 bytes
ASSUME HashOf("sha_2_384",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102,
  103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106,
  107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110,
  111, 112, 113>>) = <<51, 145, 253, 221, 252, 141, 199, 57, 55, 7, 166, 91, 27, 71, 9, 57, 124,
  248, 177, 209, 98, 175, 5, 171, 254, 143, 69, 13, 229, 243, 107, 198, 176, 69, 90, 133, 32, 188,
  78, 111, 95, 233, 91, 31, 227, 200, 69, 43>>
\* sha384,  111 bytes
ASSUME HashOf("sha_2_384",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<245,
  249, 254, 17, 13, 128, 157, 52, 2, 157, 226, 98, 160, 27, 32, 131, 86, 202, 236, 110, 5, 76, 127,
  146, 107, 37, 145, 246, 201, 120, 5, 121, 212, 181, 159, 85, 120, 198, 245, 49, 168, 79, 21, 138,
  51, 102, 12, 239>>
\* sha384,  112 bytes
ASSUME HashOf("sha_2_384",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) =
  <<51, 186, 8, 14, 192, 204, 179, 120, 228, 233, 95, 237, 59, 38, 194, 58, 161, 162, 128, 71, 110,
  0, 117, 25, 238, 71, 246, 12, 217, 197, 200, 166, 93, 98, 114, 89, 169, 170, 47, 211, 60, 160,
  109, 60, 20, 238, 85, 72>>
\* sha384,  64 bytes
ASSUME HashOf("sha_2_384",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<159, 44,
  158, 183, 17, 107, 61, 122, 75, 168, 74, 116, 164, 212, 239, 248, 165, 239, 207, 84, 182, 215,
  182, 98, 105, 60, 56, 87, 121, 20, 199, 58, 33, 71, 102, 240, 161, 117, 51, 155, 176, 137, 90,
  134, 56, 36, 252, 10>>
\* sha384,  128 bytes
ASSUME HashOf("sha_2_384",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
  113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<202, 35, 133,
  119, 51, 25, 18, 69, 52, 17, 26, 54, 208, 88, 31, 195, 240, 8, 21, 233, 7, 3, 75, 144, 207, 249,
  195, 168, 97, 225, 38, 167, 65, 213, 223, 207, 246, 90, 65, 123, 109, 114, 150, 134, 58, 192, 236,
  23>>
\* sha384,  112 bytes
ASSUME HashOf("sha_2_384",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103, 104,
  105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102, 103,
  104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107, 108,
  109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112, 106,
  107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110, 111,
  112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115, 116,
  117>>) = <<9, 51, 12, 51, 247, 17, 71, 232, 61, 25, 47, 199, 130, 205, 27, 71, 83, 17, 27, 23, 59,
  59, 5, 210, 47, 160, 128, 134, 227, 176, 247, 18, 252, 199, 199, 26, 85, 126, 45, 185, 102, 195,
  233, 250, 145, 116, 96, 57>>
\* sha512,  0 bytes
ASSUME HashOf("sha_2_512",  <<>>) = <<207, 131, 225, 53, 126, 239, 184, 189, 241, 84, 40, 80, 214,
  109, 128, 7, 214, 32, 228, 5, 11, 87, 21, 220, 131, 244, 169, 33, 211, 108, 233, 206, 71, 208,
  209, 60, 93, 133, 242, 176, 255, 131, 24, 210, 135, 126, 236, 47, 99, 185, 49, 189, 71, 65, 122,
  129, 165, 56, 50, 122, 249, 39, 218, 62>>
\* sha512,  3 bytes
ASSUME HashOf("sha_2_512",  <<97, 98, 99>>) = <<221, 175, 53, 161, 147, 97, 122, 186, 204, 65, 115,
  73, 174, 32, 65, 49, 18, 230, 250, 78, 137, 169, 126, 162, 10, 158, 238, 230, 75, 85, 211, 154,
  33, 146, 153, 42, 39, 79, 193, 168, 54, 186, 60, 35, 163, 254, 235, 189, 69, 77, 68, 35, 100, 60,
  232, 14, 42, 154, 201, 79, 165, 76, 164, 159>>
\* sha512,  56 bytes
ASSUME HashOf("sha_2_512",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102,
  103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106,
  107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110,
  111, 112, 113>>) = <<32, 74, 143, 198, 221, 168, 47, 10, 12, 237, 123, 235, 142, 8, 164, 22, 87,
  193, 110, 244, 104, 178, 40, 168, 39, 155, 227, 49, 167, 3, 195, 53, 150, 253, 21, 193, 59, 27, 7,
  249, 170, 29, 59, 234, 87, 120, 156, 160, 49, 173, 133, 199, 167, 29, 215, 3, 84, 236, 99, 18, 56,
  202, 52, 69>>
\* sha512,  111 bytes
ASSUME HashOf("sha_2_512",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) = <<161,
  161, 17, 68, 155, 25, 141, 155, 31, 83, 139, 173, 127, 63, 193, 2, 43, 58, 91, 26, 94, 144, 160,
  188, 134, 13, 232, 81, 39, 70, 203, 195, 21, 153, 230, 200, 52, 222, 58, 50, 53, 50, 122, 240,
  181, 31, 245, 123, 247, 172, 241, 151, 74, 115, 1, 77, 156, 57, 83, 129, 46, 220, 124, 141>>
\* sha512,  112 bytes
ASSUME HashOf("sha_2_512",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>) =
  <<197, 251, 215, 49, 209, 157, 42, 225, 24, 15, 0, 27, 231, 44, 44, 26, 171, 161, 215, 176, 148,
  179, 116, 136, 128, 226, 69, 147, 184, 225, 23, 167, 80, 225, 28, 27, 216, 103, 204, 47, 150, 218,
  206, 140, 139, 116, 171, 210, 213, 196, 242, 54, 190, 68, 78, 119, 211, 13, 25, 22, 23, 64, 112,
  185>>
\* sha512,  64 bytes
ASSUME HashOf("sha_2_512",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<238, 67, 32,
  235, 175, 63, 219, 79, 44, 131, 43, 19, 114, 0, 192, 142, 35, 94, 15, 167, 187, 208, 235, 23, 64,
  199, 6, 59, 168, 160, 209, 81, 218, 119, 224, 3, 57, 142, 23, 20, 169, 85, 212, 117, 176, 94, 62,
  149, 11, 99, 149, 3, 180, 82, 236, 24, 93, 228, 34, 155, 196, 135, 57, 73>>
\* sha512,  128 bytes
ASSUME HashOf("sha_2_512",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91,
  92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112,
  113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<29, 255, 213,
  227, 173, 183, 29, 69, 210, 36, 89, 57, 102, 85, 33, 174, 0, 26, 49, 122, 3, 114, 10, 69, 115, 43,
  161, 144, 12, 163, 184, 53, 31, 197, 201, 180, 202, 81, 62, 186, 111, 128, 188, 123, 29, 31, 218,
  212, 171, 209, 52, 145, 203, 130, 77, 97, 176, 141, 140, 14, 21, 97, 179, 247>>
\* sha512,  112 bytes
ASSUME HashOf("sha_2_512",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103, 104,
  105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102, 103,
  104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107, 108,
  109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112, 106,
  107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110, 111,
  112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115, 116,
  117>>) = <<142, 149, 155, 117, 218, 227, 19, 218, 140, 244, 247, 40, 20, 252, 20, 63, 143, 119,
  121, 198, 235, 159, 127, 161, 114, 153, 174, 173, 182, 136, 144, 24, 80, 29, 40, 158, 73, 0, 247,
  228, 51, 27, 153, 222, 196, 181, 67, 58, 199, 211, 41, 238, 182, 221, 38, 84, 94, 150, 229, 91,
  135, 75, 233, 9>>
\* sha512_224,  0 bytes
ASSUME HashOf("sha_2_512_224",  <<>>) = <<110, 208, 221, 2, 128, 111, 168, 158, 37, 222, 6, 12, 25,
  211, 172, 134, 202, 187, 135, 214, 160, 221, 208, 92, 51, 59, 132, 244>>
\* sha512_224,  3 bytes
ASSUME HashOf("sha_2_512_224",  <<97, 98, 99>>) = <<70, 52, 39, 15, 112, 123, 106, 84, 218, 174,
  117, 48, 70, 8, 66, 226, 14, 55, 237, 38, 92, 238, 233, 164, 62, 137, 36, 170>>
\* sha512_224,  56 bytes
ASSUME HashOf("sha_2_512_224",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101,
  102, 103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105,
  106, 107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112,
  110, 111, 112, 113>>) = <<229, 48, 45, 109, 84, 187, 36, 34, 117, 209, 231, 98, 45, 104, 223, 110,
  176, 45, 237, 209, 63, 86, 76, 19, 219, 218, 33, 116>>
\* sha512_224,  111 bytes
ASSUME HashOf("sha_2_512_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) =
  <<248, 129, 14, 227, 34, 33, 13, 15, 76, 189, 122, 78, 146, 231, 215, 231, 43, 99, 210, 119, 125,
  203, 83, 30, 19, 221, 214, 144>>
\* sha512_224,  112 bytes
ASSUME HashOf("sha_2_512_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>)
  = <<128, 153, 145, 136, 146, 235, 189, 49, 33, 92, 155, 181, 228, 229, 60, 11, 82, 146, 123, 0,
  12, 237, 7, 32, 210, 198, 90, 34>>
\* sha512_224,  64 bytes
ASSUME HashOf("sha_2_512_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<158, 36,
  55, 20, 8, 71, 69, 52, 52, 172, 184, 89, 188, 79, 132, 46, 159, 180, 164, 181, 91, 217, 220, 22,
  75, 116, 206, 164>>
\* sha512_224,  128 bytes
ASSUME HashOf("sha_2_512_224",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
  112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<73, 166, 75,
  114, 168, 138, 60, 147, 67, 43, 110, 76, 89, 161, 180, 144, 132, 3, 247, 14, 70, 225, 59, 247, 73,
  79, 190, 136>>
\* sha512_224,  112 bytes
ASSUME HashOf("sha_2_512_224",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103,
  104, 105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102,
  103, 104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107,
  108, 109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112,
  106, 107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110,
  111, 112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115,
  116, 117>>) = <<35, 254, 197, 187, 148, 214, 11, 35, 48, 129, 146, 100, 11, 12, 69, 51, 53, 214,
  100, 115, 79, 228, 14, 114, 104, 103, 74, 249>>
\* sha512_256,  0 bytes
ASSUME HashOf("sha_2_512_256",  <<>>) = <<198, 114, 184, 209, 239, 86, 237, 40, 171, 135, 195, 98,
  44, 81, 20, 6, 155, 221, 58, 215, 184, 249, 115, 116, 152, 208, 192, 30, 206, 240, 150, 122>>
\* sha512_256,  3 bytes
ASSUME HashOf("sha_2_512_256",  <<97, 98, 99>>) = <<83, 4, 142, 38, 129, 148, 30, 249, 155, 46, 41,
  183, 107, 76, 125, 171, 228, 194, 208, 198, 52, 252, 109, 70, 224, 226, 241, 49, 7, 231, 175, 35>>
\* sha512_256,  56 bytes
ASSUME HashOf("sha_2_512_256",  <<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101,
  102, 103, 101, 102, 103, 104, 102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105,
  106, 107, 108, 106, 107, 108, 109, 107, 108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112,
  110, 111, 112, 113>>) = <<189, 232, 225, 249, 241, 155, 185, 253, 52, 6, 201, 14, 198, 188, 71,
  189, 54, 216, 173, 169, 241, 24, 128, 219, 200, 162, 42, 112, 120, 182, 164, 97>>
\* sha512_256,  111 bytes
ASSUME HashOf("sha_2_512_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110>>) =
  <<189, 32, 159, 96, 176, 208, 65, 2, 160, 145, 117, 41, 127, 210, 85, 54, 126, 84, 181, 165, 96,
  91, 146, 134, 53, 198, 6, 48, 105, 20, 54, 63>>
\* sha512_256,  112 bytes
ASSUME HashOf("sha_2_512_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111>>)
  = <<44, 175, 235, 8, 130, 204, 64, 81, 103, 233, 162, 85, 184, 88, 26, 102, 220, 104, 50, 18, 71,
  73, 2, 221, 69, 61, 188, 162, 10, 148, 230, 26>>
\* sha512_256,  64 bytes
ASSUME HashOf("sha_2_512_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<201,
  228, 131, 185, 98, 37, 21, 232, 50, 89, 225, 224, 117, 116, 107, 112, 20, 44, 177, 33, 120, 99,
  251, 140, 133, 250, 227, 50, 86, 244, 24, 138>>
\* sha512_256,  128 bytes
ASSUME HashOf("sha_2_512_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18,
  19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42,
  43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66,
  67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
  91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111,
  112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127>>) = <<47, 241, 17,
  148, 178, 174, 193, 249, 67, 203, 95, 19, 11, 166, 71, 193, 81, 51, 64, 104, 8, 49, 148, 215, 40,
  26, 85, 214, 7, 174, 37, 95>>
\* sha512_256,  112 bytes
ASSUME HashOf("sha_2_512_256",  <<97, 98, 99, 100, 101, 102, 103, 104, 98, 99, 100, 101, 102, 103,
  104, 105, 99, 100, 101, 102, 103, 104, 105, 106, 100, 101, 102, 103, 104, 105, 106, 107, 101, 102,
  103, 104, 105, 106, 107, 108, 102, 103, 104, 105, 106, 107, 108, 109, 103, 104, 105, 106, 107,
  108, 109, 110, 104, 105, 106, 107, 108, 109, 110, 111, 105, 106, 107, 108, 109, 110, 111, 112,
  106, 107, 108, 109, 110, 111, 112, 113, 107, 108, 109, 110, 111, 112, 113, 114, 108, 109, 110,
  111, 112, 113, 114, 115, 109, 110, 111, 112, 113, 114, 115, 116, 110, 111, 112, 113, 114, 115,
  116, 117>>) = <<57, 40, 225, 132, 251, 134, 144, 248, 64, 218, 57, 136, 18, 29, 49, 190, 101, 203,
  157, 62, 248, 62, 230, 20, 111, 234, 200, 97, 225, 155, 86, 58>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<182, 23, 49, 134, 85, 5, 114, 100,
  226, 139, 192, 182, 251, 55, 140, 142, 241, 70, 190, 0>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97,
  32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<239,
  252, 223, 106, 229, 235, 47, 162, 210, 116, 22, 213, 241, 132, 223, 156, 37, 154, 124, 121>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114,
  32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45,
  32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<144, 208, 218, 206, 28,
  27, 220, 149, 115, 57, 48, 120, 3, 22, 3, 53, 189, 230, 223, 43>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<156, 109, 142, 168,
  142, 170, 224, 221, 165, 140, 143, 74, 15, 142, 154, 25, 14, 220, 40, 228>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,
  <<120>>) = <<21, 57, 8, 4, 53, 147, 55, 154, 69, 219, 115, 43, 179, 102, 132, 9, 167, 114, 208,
  82>>
\* HMAC-sha1 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_1_160",  <<>>,  <<>>) = <<251, 219, 29, 27, 24, 170, 108, 8, 50, 75, 125, 100,
  183, 31, 183, 99, 112, 105, 14, 29>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<137, 111, 177, 18, 138, 187, 223, 25,
  104, 50, 16, 124, 212, 157, 243, 63, 71, 180, 177, 22, 153, 18, 186, 79, 83, 104, 75, 34>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97,
  32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<163,
  14, 1, 9, 139, 198, 219, 191, 69, 105, 15, 58, 126, 158, 109, 15, 139, 190, 162, 163, 158, 97, 72,
  0, 143, 208, 94, 68>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114,
  32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45,
  32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<149, 233, 160, 219, 150,
  32, 149, 173, 174, 190, 155, 45, 111, 13, 188, 226, 212, 153, 241, 18, 242, 210, 183, 39, 63, 166,
  135, 14>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<14, 254, 176, 54, 186,
  218, 23, 116, 87, 249, 93, 168, 37, 232, 13, 247, 75, 106, 233, 223, 225, 86, 109, 161, 188, 229,
  197, 239>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,
  <<120>>) = <<123, 72, 202, 11, 145, 115, 110, 205, 84, 86, 247, 8, 245, 134, 103, 102, 148, 92,
  154, 49, 40, 21, 17, 12, 244, 112, 157, 56>>
\* HMAC-sha224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_224",  <<>>,  <<>>) = <<92, 225, 79, 114, 137, 70, 98, 33, 62, 39, 72, 210,
  166, 186, 35, 75, 116, 38, 57, 16, 206, 221, 226, 245, 169, 39, 21, 36>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<176, 52, 76, 97, 216, 219, 56, 83, 92,
  168, 175, 206, 175, 11, 241, 43, 136, 29, 194, 0, 201, 131, 61, 167, 38, 233, 55, 108, 46, 50,
  207, 247>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97,
  32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<91,
  220, 193, 70, 191, 96, 117, 78, 106, 4, 36, 38, 8, 149, 117, 199, 90, 0, 63, 8, 157, 39, 57, 131,
  157, 236, 88, 185, 100, 236, 56, 67>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114,
  32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45,
  32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<96, 228, 49, 89, 30,
  224, 182, 127, 13, 138, 38, 170, 203, 245, 183, 127, 142, 11, 198, 33, 55, 40, 197, 20, 5, 70, 4,
  15, 14, 227, 127, 84>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<206, 60, 99, 157, 203,
  157, 139, 170, 229, 212, 76, 59, 139, 94, 35, 63, 170, 180, 209, 134, 14, 7, 72, 154, 245, 200,
  79, 33, 57, 152, 189, 121>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,
  <<120>>) = <<53, 176, 71, 216, 252, 102, 132, 167, 53, 125, 232, 204, 208, 91, 239, 180, 13, 28,
  168, 72, 221, 20, 247, 235, 81, 186, 204, 244, 68, 109, 13, 183>>
\* HMAC-sha256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_256",  <<>>,  <<>>) = <<182, 19, 103, 154, 8, 20, 217, 236, 119, 47, 149, 215,
  120, 195, 95, 197, 255, 22, 151, 196, 147, 113, 86, 83, 198, 199, 18, 20, 66, 146, 197, 173>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<175, 208, 57, 68, 216, 72, 149, 98,
  107, 8, 37, 244, 171, 70, 144, 127, 21, 249, 218, 219, 228, 16, 30, 198, 130, 170, 3, 76, 124,
  235, 197, 156, 250, 234, 158, 169, 7, 110, 222, 127, 74, 241, 82, 232, 178, 250, 156, 182>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97,
  32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<175,
  69, 210, 227, 118, 72, 64, 49, 97, 127, 120, 210, 181, 138, 107, 27, 156, 126, 244, 100, 245, 160,
  27, 71, 228, 46, 195, 115, 99, 34, 68, 94, 142, 34, 64, 202, 94, 105, 226, 199, 139, 50, 57, 236,
  250, 178, 22, 73>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114,
  32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45,
  32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<78, 206, 8, 68, 133,
  129, 62, 144, 136, 210, 198, 58, 4, 27, 197, 180, 79, 158, 241, 1, 42, 43, 88, 143, 60, 209, 31,
  5, 3, 58, 196, 198, 12, 46, 246, 171, 64, 48, 254, 130, 150, 36, 141, 241, 99, 244, 73, 82>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<58, 217, 140, 80, 22,
  171, 86, 59, 54, 104, 163, 85, 96, 28, 67, 133, 156, 3, 47, 252, 50, 114, 255, 215, 151, 60, 145,
  151, 151, 39, 201, 113, 199, 193, 145, 217, 37, 186, 97, 6, 51, 6, 12, 205, 83, 199, 203, 238>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,
  <<120>>) = <<250, 129, 91, 106, 170, 79, 235, 92, 1, 196, 208, 33, 241, 211, 38, 133, 217, 195, 0,
  191, 208, 193, 178, 249, 217, 132, 209, 224, 71, 110, 223, 166, 136, 108, 112, 116, 216, 251, 32,
  221, 233, 210, 113, 100, 157, 198, 20, 12>>
\* HMAC-sha384 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_384",  <<>>,  <<>>) = <<108, 31, 46, 233, 56, 250, 210, 226, 75, 217, 18, 152,
  71, 67, 130, 202, 33, 140, 117, 219, 61, 131, 225, 20, 179, 212, 54, 119, 118, 209, 77, 53, 81,
  40, 158, 117, 232, 32, 156, 212, 183, 146, 48, 40, 64, 35, 74, 220>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<135, 170, 124, 222, 165, 239, 97, 157,
  79, 240, 180, 36, 26, 29, 108, 176, 35, 121, 244, 226, 206, 78, 194, 120, 122, 208, 179, 5, 69,
  225, 124, 222, 218, 168, 51, 183, 214, 184, 167, 2, 3, 139, 39, 78, 174, 163, 244, 228, 190, 157,
  145, 78, 235, 97, 241, 112, 46, 105, 108, 32, 58, 18, 104, 84>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121, 97,
  32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<22, 75,
  122, 123, 252, 248, 25, 226, 227, 149, 251, 231, 59, 86, 224, 163, 135, 189, 100, 34, 46, 131, 31,
  214, 16, 39, 12, 215, 234, 37, 5, 84, 151, 88, 191, 117, 192, 90, 153, 74, 109, 3, 79, 101, 248,
  240, 230, 253, 202, 234, 177, 163, 77, 74, 107, 75, 99, 110, 7, 10, 56, 188, 231, 55>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101, 114,
  32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32, 45,
  32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<128, 178, 66, 99, 199,
  193, 163, 235, 183, 20, 147, 193, 221, 123, 232, 180, 155, 70, 209, 244, 27, 74, 238, 193, 18, 27,
  1, 55, 131, 248, 243, 82, 107, 86, 208, 55, 224, 95, 37, 152, 189, 15, 210, 33, 93, 106, 30, 82,
  149, 230, 79, 115, 246, 63, 10, 236, 139, 145, 90, 152, 93, 120, 101, 152>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<67, 225, 146, 123,
  120, 186, 250, 199, 235, 66, 202, 226, 47, 210, 188, 214, 130, 191, 25, 80, 224, 111, 63, 17, 182,
  158, 40, 47, 228, 192, 115, 24, 184, 35, 129, 129, 194, 133, 69, 173, 47, 176, 239, 109, 9, 236,
  73, 53, 137, 231, 11, 138, 86, 34, 32, 226, 126, 118, 12, 250, 108, 28, 56, 138>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,
  <<120>>) = <<91, 130, 73, 142, 193, 234, 152, 97, 179, 44, 138, 44, 55, 168, 169, 16, 247, 65,
  236, 34, 188, 99, 158, 177, 230, 19, 47, 45, 3, 103, 122, 40, 216, 31, 148, 176, 12, 95, 194, 86,
  251, 143, 15, 205, 208, 172, 224, 220, 121, 209, 160, 177, 2, 176, 129, 135, 213, 26, 26, 42, 208,
  188, 236, 158>>
\* HMAC-sha512 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512",  <<>>,  <<>>) = <<185, 54, 206, 232, 108, 159, 135, 170, 93, 60, 111, 46,
  132, 203, 90, 66, 57, 165, 254, 80, 72, 10, 110, 198, 107, 112, 171, 91, 31, 74, 198, 115, 12,
  108, 81, 84, 33, 179, 39, 236, 29, 105, 64, 46, 83, 223, 180, 154, 215, 56, 30, 176, 103, 179, 56,
  253, 123, 12, 178, 34, 71, 34, 93, 71>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<178, 68, 186, 1, 48, 124, 14, 122,
  140, 202, 173, 19, 177, 6, 122, 76, 246, 185, 97, 254, 12, 106, 32, 189, 163, 217, 32, 57>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121,
  97, 32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) = <<74,
  83, 11, 49, 167, 158, 188, 206, 54, 145, 101, 70, 49, 124, 69, 242, 71, 216, 50, 65, 223, 184, 24,
  253, 55, 37, 75, 222>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101,
  114, 32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32,
  45, 32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<41, 190, 248, 206,
  136, 181, 77, 66, 38, 195, 199, 113, 142, 169, 227, 42, 206, 36, 41, 2, 111, 8, 158, 56, 206, 169,
  174, 218>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<107, 236, 228,
  71, 25, 60, 91, 58, 199, 194, 97, 67, 21, 255, 120, 65, 39, 82, 25, 20, 156, 90, 54, 41, 79, 45,
  143, 0>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170>>,  <<120>>) = <<27, 55, 14, 211, 51, 9, 98, 168, 51, 138, 248, 233, 161, 233, 186, 243, 167,
  213, 39, 210, 200, 224, 162, 0, 199, 239, 162, 152>>
\* HMAC-sha512_224 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_224",  <<>>,  <<>>) = <<222, 67, 246, 185, 111, 45, 8, 206, 190, 30, 233,
  192, 44, 83, 217, 107, 104, 193, 229, 91, 108, 21, 214, 132, 59, 65, 13, 76>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11, 11>>,  <<72, 105, 32, 84, 104, 101, 114, 101>>) = <<159, 145, 38, 195, 217, 195, 195,
  48, 215, 96, 66, 92, 168, 162, 23, 227, 31, 234, 227, 27, 254, 112, 25, 111, 248, 22, 66, 184,
  104, 64, 46, 171>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<74, 101, 102, 101>>,  <<119, 104, 97, 116, 32, 100, 111, 32, 121,
  97, 32, 119, 97, 110, 116, 32, 102, 111, 114, 32, 110, 111, 116, 104, 105, 110, 103, 63>>) =
  <<109, 247, 178, 70, 48, 213, 204, 178, 238, 51, 84, 7, 8, 26, 135, 24, 140, 34, 20, 137, 118,
  143, 162, 2, 5, 19, 178, 213, 147, 53, 148, 86>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170>>,  <<84, 101, 115, 116, 32, 85, 115, 105, 110, 103, 32, 76, 97, 114, 103, 101,
  114, 32, 84, 104, 97, 110, 32, 66, 108, 111, 99, 107, 45, 83, 105, 122, 101, 32, 75, 101, 121, 32,
  45, 32, 72, 97, 115, 104, 32, 75, 101, 121, 32, 70, 105, 114, 115, 116>>) = <<135, 18, 60, 69,
  247, 197, 55, 164, 4, 248, 244, 124, 219, 237, 218, 31, 201, 190, 198, 14, 235, 151, 25, 130, 206,
  126, 241, 14, 119, 78, 101, 57>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170>>,  <<120>>) = <<4, 209, 246, 19,
  164, 39, 209, 87, 210, 4, 141, 237, 95, 127, 55, 28, 41, 128, 251, 28, 253, 229, 63, 79, 52, 232,
  99, 48, 125, 140, 132, 175>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170, 170,
  170>>,  <<120>>) = <<129, 122, 53, 16, 204, 208, 17, 249, 226, 220, 84, 50, 157, 206, 241, 183,
  19, 29, 173, 122, 149, 183, 130, 12, 121, 32, 229, 124, 185, 12, 179, 73>>
\* HMAC-sha512_256 (RFC 2202/4231 keys)
ASSUME HmacOf("sha_2_512_256",  <<>>,  <<>>) = <<183, 156, 153, 81, 223, 89, 82, 116, 88, 45, 192,
  148, 161, 186, 70, 195, 62, 74, 54, 135, 139, 45, 131, 203, 133, 83, 240, 254, 70, 125, 205, 207>>
\* RFC 5869 A.1
ASSUME HkdfOf("sha_2_256",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11, 11, 11>>,  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>,  <<240, 241, 242, 243, 244,
  245, 246, 247, 248, 249>>,  42) = <<60, 178, 95, 37, 250, 172, 213, 122, 144, 67, 79, 100, 208,
  54, 47, 42, 45, 45, 10, 144, 207, 26, 90, 76, 93, 176, 45, 86, 236, 196, 197, 191, 52, 0, 114, 8,
  213, 184, 135, 24, 88, 101>>
\* RFC 5869 A.2
ASSUME HkdfOf("sha_2_256",  <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19,
  20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43,
  44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67,
  68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79>>,  <<96, 97, 98, 99, 100, 101, 102, 103, 104, 105,
  106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124,
  125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
  144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162,
  163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175>>,  <<176, 177, 178, 179, 180,
  181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
  200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218,
  219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237,
  238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>,  82) =
  <<177, 30, 57, 141, 200, 3, 39, 161, 200, 231, 247, 140, 89, 106, 73, 52, 79, 1, 46, 218, 45, 78,
  250, 216, 160, 80, 204, 76, 25, 175, 169, 124, 89, 4, 90, 153, 202, 199, 130, 114, 113, 203, 65,
  198, 94, 89, 14, 9, 218, 50, 117, 96, 12, 47, 9, 184, 54, 119, 147, 169, 172, 163, 219, 113, 204,
  48, 197, 129, 121, 236, 62, 135, 193, 76, 1, 213, 193, 243, 67, 79, 29, 135>>
\* RFC 5869 A.3
ASSUME HkdfOf("sha_2_256",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11, 11, 11>>,  <<>>,  <<>>,  42) = <<141, 164, 231, 117, 165, 99, 193, 143, 113, 95, 128,
  42, 6, 60, 90, 49, 184, 161, 31, 92, 94, 225, 135, 158, 195, 69, 78, 95, 60, 115, 141, 45, 157,
  32, 19, 149, 250, 164, 182, 26, 150, 200>>
\* RFC 5869 A.4
ASSUME HkdfOf("sha_1_160",  <<11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11>>,  <<0, 1, 2, 3, 4, 5, 6,
  7, 8, 9, 10, 11, 12>>,  <<240, 241, 242, 243, 244, 245, 246, 247, 248, 249>>,  42) = <<8, 90, 1,
  234, 27, 16, 243, 105, 51, 6, 139, 86, 239, 165, 173, 129, 164, 241, 75, 130, 47, 91, 9, 21, 104,
  169, 205, 212, 241, 85, 253, 162, 194, 46, 66, 36, 120, 211, 5, 243, 248, 150>>
\* RFC 6070
ASSUME Pbkdf2Of("sha_1_160",  <<112, 97, 115, 115, 119, 111, 114, 100>>,  <<115, 97, 108, 116>>,  1,
  20) = <<12, 96, 200, 15, 150, 31, 14, 113, 243, 169, 181, 36, 175, 96, 18, 6, 47, 224, 55, 166>>
\* RFC 6070
ASSUME Pbkdf2Of("sha_1_160",  <<112, 97, 115, 115, 119, 111, 114, 100>>,  <<115, 97, 108, 116>>,  2,
  20) = <<234, 108, 1, 77, 199, 45, 111, 140, 205, 30, 217, 42, 206, 29, 65, 240, 216, 222, 137,
  87>>
\* RFC 6070 shape,  fewer iterations
ASSUME Pbkdf2Of("sha_1_160",  <<112, 97, 115, 115, 119, 111, 114, 100, 80, 65, 83, 83, 87, 79, 82,
  68, 112, 97, 115, 115, 119, 111, 114, 100>>,  <<115, 97, 108, 116, 83, 65, 76, 84, 115, 97, 108,
  116, 83, 65, 76, 84, 115, 97, 108, 116, 83, 65, 76, 84, 115, 97, 108, 116, 83, 65, 76, 84, 115,
  97, 108, 116>>,  5,  45) = <<97, 196, 237, 95, 22, 195, 44, 98, 93, 156, 209, 160, 29, 82, 37,
  116, 60, 15, 81, 107, 139, 164, 70, 192, 179, 88, 150, 158, 37, 233, 210, 97, 61, 28, 135, 220,
  52, 189, 135, 164, 78, 170, 205, 45, 189>>
\* PBKDF2-HMAC-SHA-512
ASSUME Pbkdf2Of("sha_2_512",  <<112, 97, 115, 115, 119, 111, 114, 100>>,  <<115, 97, 108, 116>>,  3,
  130) = <<182, 176, 124, 178, 206, 191, 74, 216, 68, 104, 57, 26, 84, 56, 36, 252, 207, 254, 14, 7,
  105, 219, 230, 189, 223, 16, 166, 86, 115, 196, 182, 72, 230, 18, 212, 73, 24, 249, 206, 154, 25,
  161, 41, 76, 245, 20, 6, 40, 8, 75, 169, 148, 195, 178, 26, 78, 244, 116, 18, 32, 184, 17, 198,
  51, 207, 192, 100, 31, 204, 188, 196, 22, 79, 27, 191, 203, 31, 51, 245, 149, 174, 154, 164, 163,
  61, 220, 206, 87, 1, 87, 119, 89, 128, 54, 44, 14, 226, 138, 163, 64, 200, 66, 163, 174, 132, 113,
  1, 103, 174, 162, 249, 186, 52, 131, 60, 191, 102, 168, 146, 46, 95, 22, 93, 136, 104, 104, 253,
  63, 212, 38>>
\* RFC 8439 2.3.2
ASSUME KeyBlock(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
  23, 24, 25, 26, 27, 28, 29, 30, 31>>,  <<1, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 74, 0, 0, 0, 0>>,  0) =
  <<16, 241, 231, 228, 209, 59, 89, 21, 80, 15, 221, 31, 163, 32, 113, 196, 199, 209, 244, 199, 51,
  192, 104, 3, 4, 34, 170, 154, 195, 212, 108, 78, 210, 130, 100, 70, 7, 159, 170, 9, 20, 194, 215,
  5, 217, 139, 2, 162, 181, 18, 156, 209, 222, 22, 78, 185, 203, 208, 131, 232, 162, 80, 60, 78>>
\* RFC 8439 2.4.2
ASSUME ChaChaXor(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
  23, 24, 25, 26, 27, 28, 29, 30, 31>>,  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 74, 0, 0, 0, 0>>,  0,
  <<76, 97, 100, 105, 101, 115, 32, 97, 110, 100, 32, 71, 101, 110, 116, 108, 101, 109, 101, 110,
  32, 111, 102, 32, 116, 104, 101, 32, 99, 108, 97, 115, 115, 32, 111, 102, 32, 39, 57, 57, 58, 32,
  73, 102, 32, 73, 32, 99, 111, 117, 108, 100, 32, 111, 102, 102, 101, 114, 32, 121, 111, 117, 32,
  111, 110, 108, 121, 32, 111, 110, 101, 32, 116, 105, 112, 32, 102, 111, 114, 32, 116, 104, 101,
  32, 102, 117, 116, 117, 114, 101, 44, 32, 115, 117, 110, 115, 99, 114, 101, 101, 110, 32, 119,
  111, 117, 108, 100, 32, 98, 101, 32, 105, 116, 46>>) = <<110, 46, 53, 154, 37, 104, 249, 128, 65,
  186, 7, 40, 221, 13, 105, 129, 233, 126, 122, 236, 29, 67, 96, 194, 10, 39, 175, 204, 253, 159,
  174, 11, 249, 27, 101, 197, 82, 71, 51, 171, 143, 89, 61, 171, 205, 98, 179, 87, 22, 57, 214, 36,
  230, 81, 82, 171, 143, 83, 12, 53, 159, 8, 97, 216, 7, 202, 13, 191, 80, 13, 106, 97, 86, 163,
  142, 8, 138, 34, 182, 94, 82, 188, 81, 77, 22, 204, 248, 6, 129, 140, 233, 26, 183, 121, 55, 54,
  90, 249, 11, 191, 116, 163, 91, 230, 180, 11, 142, 237, 242, 120, 94, 66, 135, 77>>
\* RFC 8439 2.4.2,  the last 51 bytes at stream offset 63
ASSUME ChaChaXor(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
  23, 24, 25, 26, 27, 28, 29, 30, 31>>,  <<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 74, 0, 0, 0, 0>>,  63,
  <<111, 110, 108, 121, 32, 111, 110, 101, 32, 116, 105, 112, 32, 102, 111, 114, 32, 116, 104, 101,
  32, 102, 117, 116, 117, 114, 101, 44, 32, 115, 117, 110, 115, 99, 114, 101, 101, 110, 32, 119,
  111, 117, 108, 100, 32, 98, 101, 32, 105, 116, 46>>) = <<216, 7, 202, 13, 191, 80, 13, 106, 97,
  86, 163, 142, 8, 138, 34, 182, 94, 82, 188, 81, 77, 22, 204, 248, 6, 129, 140, 233, 26, 183, 121,
  55, 54, 90, 249, 11, 191, 116, 163, 91, 230, 180, 11, 142, 237, 242, 120, 94, 66, 135, 77>>
\* RFC 8439 2.5.2
ASSUME PolyOf(<<133, 214, 190, 120, 87, 85, 109, 51, 127, 68, 82, 254, 66, 213, 6, 168, 1, 3, 128,
  138, 251, 13, 178, 253, 74, 191, 246, 175, 65, 73, 245, 27>>,  <<67, 114, 121, 112, 116, 111, 103,
  114, 97, 112, 104, 105, 99, 32, 70, 111, 114, 117, 109, 32, 82, 101, 115, 101, 97, 114, 99, 104,
  32, 71, 114, 111, 117, 112>>) = <<168, 6, 29, 193, 48, 81, 54, 198, 194, 43, 139, 175, 12, 1, 39,
  169>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>)
  = <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255>>,  <<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0>>) = <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  240, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 17, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  251, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 254, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1>>) = <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<253, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>)
  = <<250, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<1, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<227, 53, 148, 215, 80, 94, 67, 185, 0, 0, 0, 0, 0, 0, 0, 0, 51, 148, 215, 80, 94,
  67, 121, 205, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<20, 0, 0, 0, 0, 0, 0, 0, 85, 0, 0, 0, 0, 0, 0, 0>>
\* RFC 8439 A.3 (wrap-around and carry vectors)
ASSUME PolyOf(<<1, 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>,  <<227, 53, 148, 215, 80, 94, 67, 185, 0, 0, 0, 0, 0, 0, 0, 0, 51, 148, 215, 80, 94,
  67, 121, 205, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<19, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* Poly1305 against big-integer arithmetic,  0 bytes
ASSUME PolyOf(<<69, 124, 118, 159, 57, 216, 100, 65, 153, 192, 229, 189, 188, 251, 200, 91, 55, 206,
  145, 203, 222, 31, 193, 176, 234, 107, 68, 241, 48, 67, 109, 215>>,  <<>>) = <<55, 206, 145, 203,
  222, 31, 193, 176, 234, 107, 68, 241, 48, 67, 109, 215>>
\* Poly1305 against big-integer arithmetic,  1 bytes
ASSUME PolyOf(<<41, 254, 105, 189, 158, 140, 235, 166, 160, 125, 29, 236, 37, 177, 176, 135, 239,
  226, 108, 7, 255, 13, 33, 215, 219, 11, 51, 119, 119, 56, 165, 198>>,  <<241>>) = <<151, 80, 51,
  18, 245, 8, 109, 70, 137, 239, 115, 252, 114, 31, 173, 180>>
\* Poly1305 against big-integer arithmetic,  15 bytes
ASSUME PolyOf(<<54, 234, 193, 63, 85, 50, 35, 166, 56, 65, 70, 13, 59, 106, 161, 230, 141, 104, 39,
  40, 246, 16, 251, 28, 127, 217, 45, 95, 162, 232, 20, 120>>,  <<0, 113, 82, 222, 168, 101, 31, 63,
  206, 89, 121, 97, 233, 51, 139>>) = <<171, 91, 93, 66, 107, 92, 109, 45, 61, 42, 87, 173, 143,
  128, 155, 161>>
\* Poly1305 against big-integer arithmetic,  16 bytes
ASSUME PolyOf(<<135, 254, 26, 26, 69, 207, 237, 146, 89, 35, 212, 63, 153, 115, 91, 3, 32, 219, 46,
  187, 162, 154, 123, 55, 108, 150, 124, 104, 29, 40, 140, 71>>,  <<177, 130, 156, 46, 33, 156, 149,
  234, 157, 204, 17, 222, 69, 149, 6, 196>>) = <<160, 152, 103, 154, 132, 55, 114, 227, 184, 77, 89,
  39, 86, 220, 13, 254>>
\* Poly1305 against big-integer arithmetic,  17 bytes
ASSUME PolyOf(<<241, 41, 178, 99, 94, 210, 219, 40, 118, 139, 13, 195, 87, 211, 17, 204, 72, 30,
  106, 18, 234, 66, 134, 35, 28, 105, 48, 158, 75, 94, 17, 158>>,  <<126, 192, 224, 113, 102, 92,
  111, 32, 120, 137, 218, 33, 48, 81, 116, 0, 248>>) = <<116, 190, 107, 232, 1, 244, 12, 81, 22,
  162, 11, 182, 54, 192, 127, 188>>
\* Poly1305 against big-integer arithmetic,  31 bytes
ASSUME PolyOf(<<170, 97, 20, 223, 178, 51, 92, 1, 251, 238, 158, 53, 171, 60, 10, 198, 25, 198, 41,
  55, 191, 227, 202, 245, 55, 243, 127, 251, 89, 145, 117, 42>>,  <<128, 29, 86, 223, 12, 186, 158,
  42, 93, 231, 15, 74, 186, 116, 75, 80, 242, 107, 35, 246, 40, 105, 234, 50, 150, 140, 10, 138, 84,
  73, 224>>) = <<218, 248, 110, 155, 221, 55, 252, 48, 89, 109, 97, 45, 136, 102, 19, 156>>
\* Poly1305 against big-integer arithmetic,  33 bytes
ASSUME PolyOf(<<68, 76, 134, 173, 161, 218, 47, 160, 43, 110, 108, 52, 109, 214, 129, 46, 151, 205,
  227, 240, 52, 86, 243, 247, 23, 233, 205, 176, 59, 170, 102, 50>>,  <<38, 194, 112, 247, 150, 142,
  16, 247, 50, 65, 204, 228, 87, 239, 26, 98, 240, 109, 125, 76, 28, 160, 133, 5, 138, 241, 118, 92,
  145, 83, 55, 106, 42>>) = <<187, 159, 196, 103, 195, 73, 165, 186, 203, 92, 191, 201, 58, 245,
  157, 8>>
\* Poly1305 against big-integer arithmetic,  64 bytes
ASSUME PolyOf(<<147, 27, 144, 239, 100, 184, 76, 37, 252, 45, 137, 67, 0, 255, 172, 16, 105, 106,
  244, 84, 179, 222, 37, 77, 132, 37, 65, 209, 175, 106, 101, 154>>,  <<143, 90, 13, 150, 77, 183,
  221, 0, 150, 19, 146, 152, 74, 25, 141, 173, 171, 67, 42, 181, 185, 104, 128, 86, 230, 216, 230,
  16, 39, 103, 89, 79, 107, 78, 248, 90, 154, 102, 138, 209, 38, 58, 90, 78, 197, 29, 18, 123, 145,
  145, 72, 178, 63, 209, 215, 80, 134, 76, 77, 47, 223, 32, 49, 123>>) = <<184, 206, 31, 164, 7,
  142, 99, 25, 218, 247, 22, 142, 76, 192, 241, 103>>
\* Poly1305 against big-integer arithmetic,  100 bytes
ASSUME PolyOf(<<245, 69, 248, 120, 82, 50, 101, 180, 180, 52, 22, 45, 243, 156, 151, 14, 254, 33,
  149, 65, 232, 31, 160, 249, 255, 19, 99, 240, 103, 132, 218, 5>>,  <<238, 28, 0, 243, 1, 145, 242,
  191, 178, 143, 142, 91, 58, 29, 74, 216, 57, 209, 127, 103, 232, 18, 160, 4, 239, 149, 143, 140,
  166, 55, 169, 201, 9, 67, 56, 107, 9, 68, 190, 93, 220, 123, 89, 96, 77, 207, 25, 148, 36, 30, 91,
  215, 21, 246, 82, 2, 208, 40, 236, 115, 247, 78, 246, 11, 60, 165, 47, 181, 78, 189, 80, 46, 39,
  168, 171, 159, 115, 171, 134, 244, 78, 50, 83, 244, 129, 62, 79, 50, 150, 33, 120, 30, 19, 241,
  119, 193, 63, 139, 255, 62>>) = <<222, 45, 124, 238, 159, 10, 241, 241, 140, 111, 118, 15, 102,
  110, 207, 121>>
\* Poly1305 all ones
ASSUME PolyOf(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>,  <<255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255>>) = <<94, 252, 106, 107, 81, 252, 236, 76, 120, 124, 80, 117,
  153, 124, 149, 228>>
\* repeated block closed form,  1 times
ASSUME PolyFinish(PolyRepeat(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41,
  241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),
  <<208, 219, 82, 134, 10, 150, 58, 64, 93, 235, 141, 198, 116, 82, 125, 118>>,  1),  <<22, 228,
  253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50,
  131, 50, 186, 211, 90, 200, 182, 136, 228>>) = <<83, 118, 29, 49, 102, 238, 252, 228, 152, 76,
  245, 59, 103, 70, 97, 212>>
\* repeated block closed form,  2 times
ASSUME PolyFinish(PolyRepeat(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41,
  241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),
  <<208, 219, 82, 134, 10, 150, 58, 64, 93, 235, 141, 198, 116, 82, 125, 118>>,  2),  <<22, 228,
  253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50,
  131, 50, 186, 211, 90, 200, 182, 136, 228>>) = <<101, 229, 205, 103, 176, 173, 152, 236, 75, 235,
  57, 158, 114, 209, 107, 42>>
\* repeated block closed form,  3 times
ASSUME PolyFinish(PolyRepeat(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41,
  241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),
  <<208, 219, 82, 134, 10, 150, 58, 64, 93, 235, 141, 198, 116, 82, 125, 118>>,  3),  <<22, 228,
  253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50,
  131, 50, 186, 211, 90, 200, 182, 136, 228>>) = <<200, 38, 94, 7, 184, 245, 18, 67, 17, 46, 153,
  203, 78, 192, 17, 147>>
\* repeated block closed form,  7 times
ASSUME PolyFinish(PolyRepeat(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41,
  241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),
  <<208, 219, 82, 134, 10, 150, 58, 64, 93, 235, 141, 198, 116, 82, 125, 118>>,  7),  <<22, 228,
  253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50,
  131, 50, 186, 211, 90, 200, 182, 136, 228>>) = <<58, 249, 11, 201, 161, 117, 138, 169, 95, 146,
  123, 117, 207, 12, 208, 252>>
\* repeated block closed form,  12 times
ASSUME PolyFinish(PolyRepeat(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41,
  241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),
  <<208, 219, 82, 134, 10, 150, 58, 64, 93, 235, 141, 198, 116, 82, 125, 118>>,  12),  <<22, 228,
  253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50,
  131, 50, 186, 211, 90, 200, 182, 136, 228>>) = <<72, 80, 123, 8, 113, 55, 91, 84, 159, 72, 134,
  40, 76, 102, 154, 168>>
\* repeated block closed form from a non-zero value
ASSUME PolyFinish(PolyRepeat(PolyAbsorb(PolyZero,  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209,
  198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182,
  136, 228>>),  <<118, 125, 82, 116, 198, 141, 235, 93, 64, 58, 150, 10, 134, 82, 219, 208>>),
  PolyR(<<22, 228, 253, 237, 196, 77, 202, 209, 198, 200, 41, 241, 55, 23, 83, 118, 24, 104, 41, 88,
  90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136, 228>>),  <<208, 219, 82, 134, 10, 150, 58, 64,
  93, 235, 141, 198, 116, 82, 125, 118>>,  9),  <<22, 228, 253, 237, 196, 77, 202, 209, 198, 200,
  41, 241, 55, 23, 83, 118, 24, 104, 41, 88, 90, 240, 50, 131, 50, 186, 211, 90, 200, 182, 136,
  228>>) = <<207, 59, 121, 152, 205, 47, 69, 234, 196, 139, 236, 72, 228, 68, 255, 187>>
\* RFC 8439 2.8.2 ciphertext
ASSUME AeadCrypt(<<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
  144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159>>,  <<7, 0, 0, 0,
  64, 65, 66, 67, 68, 69, 70, 71>>,  0,  <<76, 97, 100, 105, 101, 115, 32, 97, 110, 100, 32, 71,
  101, 110, 116, 108, 101, 109, 101, 110, 32, 111, 102, 32, 116, 104, 101, 32, 99, 108, 97, 115,
  115, 32, 111, 102, 32, 39, 57, 57, 58, 32, 73, 102, 32, 73, 32, 99, 111, 117, 108, 100, 32, 111,
  102, 102, 101, 114, 32, 121, 111, 117, 32, 111, 110, 108, 121, 32, 111, 110, 101, 32, 116, 105,
  112, 32, 102, 111, 114, 32, 116, 104, 101, 32, 102, 117, 116, 117, 114, 101, 44, 32, 115, 117,
  110, 115, 99, 114, 101, 101, 110, 32, 119, 111, 117, 108, 100, 32, 98, 101, 32, 105, 116, 46>>) =
  <<211, 26, 141, 52, 100, 142, 96, 219, 123, 134, 175, 188, 83, 239, 126, 194, 164, 173, 237, 81,
  41, 110, 8, 254, 169, 226, 181, 167, 54, 238, 98, 214, 61, 190, 164, 94, 140, 169, 103, 18, 130,
  250, 251, 105, 218, 146, 114, 139, 26, 113, 222, 10, 158, 6, 11, 41, 5, 214, 165, 182, 126, 205,
  59, 54, 146, 221, 189, 127, 45, 119, 139, 140, 152, 3, 174, 227, 40, 9, 27, 88, 250, 179, 36, 228,
  250, 214, 117, 148, 85, 133, 128, 139, 72, 49, 215, 188, 63, 244, 222, 240, 142, 75, 122, 157,
  229, 118, 210, 101, 134, 206, 198, 75, 97, 22>>
\* RFC 8439 2.8.2 tag
ASSUME AeadTag(<<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
  144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159>>,  <<7, 0, 0, 0,
  64, 65, 66, 67, 68, 69, 70, 71>>,  <<80, 81, 82, 83, 192, 193, 194, 195, 196, 197, 198, 199>>,
  <<211, 26, 141, 52, 100, 142, 96, 219, 123, 134, 175, 188, 83, 239, 126, 194, 164, 173, 237, 81,
  41, 110, 8, 254, 169, 226, 181, 167, 54, 238, 98, 214, 61, 190, 164, 94, 140, 169, 103, 18, 130,
  250, 251, 105, 218, 146, 114, 139, 26, 113, 222, 10, 158, 6, 11, 41, 5, 214, 165, 182, 126, 205,
  59, 54, 146, 221, 189, 127, 45, 119, 139, 140, 152, 3, 174, 227, 40, 9, 27, 88, 250, 179, 36, 228,
  250, 214, 117, 148, 85, 133, 128, 139, 72, 49, 215, 188, 63, 244, 222, 240, 142, 75, 122, 157,
  229, 118, 210, 101, 134, 206, 198, 75, 97, 22>>) = <<26, 225, 11, 89, 79, 9, 226, 106, 126, 144,
  46, 203, 208, 96, 6, 145>>
\* RFC 4648
ASSUME Base64Encode(<<>>) = <<>>
\* RFC 4648
ASSUME Base64Decode(<<>>) = <<>>
\* RFC 4648
ASSUME Base16Encode(<<>>) = <<>>
\* RFC 4648
ASSUME Base16Decode(<<>>) = <<>>
\* RFC 4648
ASSUME Base64Encode(<<102>>) = <<90, 103, 61, 61>>
\* RFC 4648
ASSUME Base64Decode(<<90, 103, 61, 61>>) = <<102>>
\* RFC 4648
ASSUME Base16Encode(<<102>>) = <<54, 54>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54>>) = <<102>>
\* RFC 4648
ASSUME Base64Encode(<<102, 111>>) = <<90, 109, 56, 61>>
\* RFC 4648
ASSUME Base64Decode(<<90, 109, 56, 61>>) = <<102, 111>>
\* RFC 4648
ASSUME Base16Encode(<<102, 111>>) = <<54, 54, 54, 102>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54, 54, 70>>) = <<102, 111>>
\* RFC 4648
ASSUME Base64Encode(<<102, 111, 111>>) = <<90, 109, 57, 118>>
\* RFC 4648
ASSUME Base64Decode(<<90, 109, 57, 118>>) = <<102, 111, 111>>
\* RFC 4648
ASSUME Base16Encode(<<102, 111, 111>>) = <<54, 54, 54, 102, 54, 102>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54, 54, 70, 54, 70>>) = <<102, 111, 111>>
\* RFC 4648
ASSUME Base64Encode(<<102, 111, 111, 98>>) = <<90, 109, 57, 118, 89, 103, 61, 61>>
\* RFC 4648
ASSUME Base64Decode(<<90, 109, 57, 118, 89, 103, 61, 61>>) = <<102, 111, 111, 98>>
\* RFC 4648
ASSUME Base16Encode(<<102, 111, 111, 98>>) = <<54, 54, 54, 102, 54, 102, 54, 50>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54, 54, 70, 54, 70, 54, 50>>) = <<102, 111, 111, 98>>
\* RFC 4648
ASSUME Base64Encode(<<102, 111, 111, 98, 97>>) = <<90, 109, 57, 118, 89, 109, 69, 61>>
\* RFC 4648
ASSUME Base64Decode(<<90, 109, 57, 118, 89, 109, 69, 61>>) = <<102, 111, 111, 98, 97>>
\* RFC 4648
ASSUME Base16Encode(<<102, 111, 111, 98, 97>>) = <<54, 54, 54, 102, 54, 102, 54, 50, 54, 49>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54, 54, 70, 54, 70, 54, 50, 54, 49>>) = <<102, 111, 111, 98, 97>>
\* RFC 4648
ASSUME Base64Encode(<<102, 111, 111, 98, 97, 114>>) = <<90, 109, 57, 118, 89, 109, 70, 121>>
\* RFC 4648
ASSUME Base64Decode(<<90, 109, 57, 118, 89, 109, 70, 121>>) = <<102, 111, 111, 98, 97, 114>>
\* RFC 4648
ASSUME Base16Encode(<<102, 111, 111, 98, 97, 114>>) = <<54, 54, 54, 102, 54, 102, 54, 50, 54, 49,
  55, 50>>
\* RFC 4648
ASSUME Base16Decode(<<54, 54, 54, 70, 54, 70, 54, 50, 54, 49, 55, 50>>) = <<102, 111, 111, 98, 97,
  114>>
\* RFC 4648
ASSUME Base64Encode(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
  22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45,
  46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
  70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93,
  94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114,
  115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133,
  134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152,
  153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171,
  172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190,
  191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
  210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228,
  229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247,
  248, 249, 250, 251, 252, 253, 254, 255>>) = <<65, 65, 69, 67, 65, 119, 81, 70, 66, 103, 99, 73,
  67, 81, 111, 76, 68, 65, 48, 79, 68, 120, 65, 82, 69, 104, 77, 85, 70, 82, 89, 88, 71, 66, 107,
  97, 71, 120, 119, 100, 72, 104, 56, 103, 73, 83, 73, 106, 74, 67, 85, 109, 74, 121, 103, 112, 75,
  105, 115, 115, 76, 83, 52, 118, 77, 68, 69, 121, 77, 122, 81, 49, 78, 106, 99, 52, 79, 84, 111,
  55, 80, 68, 48, 43, 80, 48, 66, 66, 81, 107, 78, 69, 82, 85, 90, 72, 83, 69, 108, 75, 83, 48, 120,
  78, 84, 107, 57, 81, 85, 86, 74, 84, 86, 70, 86, 87, 86, 49, 104, 90, 87, 108, 116, 99, 88, 86,
  53, 102, 89, 71, 70, 105, 89, 50, 82, 108, 90, 109, 100, 111, 97, 87, 112, 114, 98, 71, 49, 117,
  98, 51, 66, 120, 99, 110, 78, 48, 100, 88, 90, 51, 101, 72, 108, 54, 101, 51, 120, 57, 102, 110,
  43, 65, 103, 89, 75, 68, 104, 73, 87, 71, 104, 52, 105, 74, 105, 111, 117, 77, 106, 89, 54, 80,
  107, 74, 71, 83, 107, 53, 83, 86, 108, 112, 101, 89, 109, 90, 113, 98, 110, 74, 50, 101, 110, 54,
  67, 104, 111, 113, 79, 107, 112, 97, 97, 110, 113, 75, 109, 113, 113, 54, 121, 116, 114, 113, 43,
  119, 115, 98, 75, 122, 116, 76, 87, 50, 116, 55, 105, 53, 117, 114, 117, 56, 118, 98, 54, 47, 119,
  77, 72, 67, 119, 56, 84, 70, 120, 115, 102, 73, 121, 99, 114, 76, 122, 77, 51, 79, 122, 57, 68,
  82, 48, 116, 80, 85, 49, 100, 98, 88, 50, 78, 110, 97, 50, 57, 122, 100, 51, 116, 47, 103, 52,
  101, 76, 106, 53, 79, 88, 109, 53, 43, 106, 112, 54, 117, 118, 115, 55, 101, 55, 118, 56, 80, 72,
  121, 56, 47, 84, 49, 57, 118, 102, 52, 43, 102, 114, 55, 47, 80, 51, 43, 47, 119, 61, 61>>
\* RFC 4648
ASSUME Base64Decode(<<65, 65, 69, 67, 65, 119, 81, 70, 66, 103, 99, 73, 67, 81, 111, 76, 68, 65, 48,
  79, 68, 120, 65, 82, 69, 104, 77, 85, 70, 82, 89, 88, 71, 66, 107, 97, 71, 120, 119, 100, 72, 104,
  56, 103, 73, 83, 73, 106, 74, 67, 85, 109, 74, 121, 103, 112, 75, 105, 115, 115, 76, 83, 52, 118,
  77, 68, 69, 121, 77, 122, 81, 49, 78, 106, 99, 52, 79, 84, 111, 55, 80, 68, 48, 43, 80, 48, 66,
  66, 81, 107, 78, 69, 82, 85, 90, 72, 83, 69, 108, 75, 83, 48, 120, 78, 84, 107, 57, 81, 85, 86,
  74, 84, 86, 70, 86, 87, 86, 49, 104, 90, 87, 108, 116, 99, 88, 86, 53, 102, 89, 71, 70, 105, 89,
  50, 82, 108, 90, 109, 100, 111, 97, 87, 112, 114, 98, 71, 49, 117, 98, 51, 66, 120, 99, 110, 78,
  48, 100, 88, 90, 51, 101, 72, 108, 54, 101, 51, 120, 57, 102, 110, 43, 65, 103, 89, 75, 68, 104,
  73, 87, 71, 104, 52, 105, 74, 105, 111, 117, 77, 106, 89, 54, 80, 107, 74, 71, 83, 107, 53, 83,
  86, 108, 112, 101, 89, 109, 90, 113, 98, 110, 74, 50, 101, 110, 54, 67, 104, 111, 113, 79, 107,
  112, 97, 97, 110, 113, 75, 109, 113, 113, 54, 121, 116, 114, 113, 43, 119, 115, 98, 75, 122, 116,
  76, 87, 50, 116, 55, 105, 53, 117, 114, 117, 56, 118, 98, 54, 47, 119, 77, 72, 67, 119, 56, 84,
  70, 120, 115, 102, 73, 121, 99, 114, 76, 122, 77, 51, 79, 122, 57, 68, 82, 48, 116, 80, 85, 49,
  100, 98, 88, 50, 78, 110, 97, 50, 57, 122, 100, 51, 116, 47, 103, 52, 101, 76, 106, 53, 79, 88,
  109, 53, 43, 106, 112, 54, 117, 118, 115, 55, 101, 55, 118, 56, 80, 72, 121, 56, 47, 84, 49, 57,
  118, 102, 52, 43, 102, 114, 55, 47, 80, 51, 43, 47, 119, 61, 61>>) = <<0, 1, 2, 3, 4, 5, 6, 7, 8,
  9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33,
  34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
  58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81,
  82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104,
  105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123,
  124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142,
  143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161,
  162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180,
  181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199,
  200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218,
  219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237,
  238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>
\* RFC 4648
ASSUME Base16Encode(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21,
  22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45,
  46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
  70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93,
  94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114,
  115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133,
  134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152,
  153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171,
  172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190,
  191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209,
  210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228,
  229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247,
  248, 249, 250, 251, 252, 253, 254, 255>>) = <<48, 48, 48, 49, 48, 50, 48, 51, 48, 52, 48, 53, 48,
  54, 48, 55, 48, 56, 48, 57, 48, 97, 48, 98, 48, 99, 48, 100, 48, 101, 48, 102, 49, 48, 49, 49, 49,
  50, 49, 51, 49, 52, 49, 53, 49, 54, 49, 55, 49, 56, 49, 57, 49, 97, 49, 98, 49, 99, 49, 100, 49,
  101, 49, 102, 50, 48, 50, 49, 50, 50, 50, 51, 50, 52, 50, 53, 50, 54, 50, 55, 50, 56, 50, 57, 50,
  97, 50, 98, 50, 99, 50, 100, 50, 101, 50, 102, 51, 48, 51, 49, 51, 50, 51, 51, 51, 52, 51, 53, 51,
  54, 51, 55, 51, 56, 51, 57, 51, 97, 51, 98, 51, 99, 51, 100, 51, 101, 51, 102, 52, 48, 52, 49, 52,
  50, 52, 51, 52, 52, 52, 53, 52, 54, 52, 55, 52, 56, 52, 57, 52, 97, 52, 98, 52, 99, 52, 100, 52,
  101, 52, 102, 53, 48, 53, 49, 53, 50, 53, 51, 53, 52, 53, 53, 53, 54, 53, 55, 53, 56, 53, 57, 53,
  97, 53, 98, 53, 99, 53, 100, 53, 101, 53, 102, 54, 48, 54, 49, 54, 50, 54, 51, 54, 52, 54, 53, 54,
  54, 54, 55, 54, 56, 54, 57, 54, 97, 54, 98, 54, 99, 54, 100, 54, 101, 54, 102, 55, 48, 55, 49, 55,
  50, 55, 51, 55, 52, 55, 53, 55, 54, 55, 55, 55, 56, 55, 57, 55, 97, 55, 98, 55, 99, 55, 100, 55,
  101, 55, 102, 56, 48, 56, 49, 56, 50, 56, 51, 56, 52, 56, 53, 56, 54, 56, 55, 56, 56, 56, 57, 56,
  97, 56, 98, 56, 99, 56, 100, 56, 101, 56, 102, 57, 48, 57, 49, 57, 50, 57, 51, 57, 52, 57, 53, 57,
  54, 57, 55, 57, 56, 57, 57, 57, 97, 57, 98, 57, 99, 57, 100, 57, 101, 57, 102, 97, 48, 97, 49, 97,
  50, 97, 51, 97, 52, 97, 53, 97, 54, 97, 55, 97, 56, 97, 57, 97, 97, 97, 98, 97, 99, 97, 100, 97,
  101, 97, 102, 98, 48, 98, 49, 98, 50, 98, 51, 98, 52, 98, 53, 98, 54, 98, 55, 98, 56, 98, 57, 98,
  97, 98, 98, 98, 99, 98, 100, 98, 101, 98, 102, 99, 48, 99, 49, 99, 50, 99, 51, 99, 52, 99, 53, 99,
  54, 99, 55, 99, 56, 99, 57, 99, 97, 99, 98, 99, 99, 99, 100, 99, 101, 99, 102, 100, 48, 100, 49,
  100, 50, 100, 51, 100, 52, 100, 53, 100, 54, 100, 55, 100, 56, 100, 57, 100, 97, 100, 98, 100, 99,
  100, 100, 100, 101, 100, 102, 101, 48, 101, 49, 101, 50, 101, 51, 101, 52, 101, 53, 101, 54, 101,
  55, 101, 56, 101, 57, 101, 97, 101, 98, 101, 99, 101, 100, 101, 101, 101, 102, 102, 48, 102, 49,
  102, 50, 102, 51, 102, 52, 102, 53, 102, 54, 102, 55, 102, 56, 102, 57, 102, 97, 102, 98, 102, 99,
  102, 100, 102, 101, 102, 102>>
\* RFC 4648
ASSUME Base16Decode(<<48, 48, 48, 49, 48, 50, 48, 51, 48, 52, 48, 53, 48, 54, 48, 55, 48, 56, 48,
  57, 48, 65, 48, 66, 48, 67, 48, 68, 48, 69, 48, 70, 49, 48, 49, 49, 49, 50, 49, 51, 49, 52, 49,
  53, 49, 54, 49, 55, 49, 56, 49, 57, 49, 65, 49, 66, 49, 67, 49, 68, 49, 69, 49, 70, 50, 48, 50,
  49, 50, 50, 50, 51, 50, 52, 50, 53, 50, 54, 50, 55, 50, 56, 50, 57, 50, 65, 50, 66, 50, 67, 50,
  68, 50, 69, 50, 70, 51, 48, 51, 49, 51, 50, 51, 51, 51, 52, 51, 53, 51, 54, 51, 55, 51, 56, 51,
  57, 51, 65, 51, 66, 51, 67, 51, 68, 51, 69, 51, 70, 52, 48, 52, 49, 52, 50, 52, 51, 52, 52, 52,
  53, 52, 54, 52, 55, 52, 56, 52, 57, 52, 65, 52, 66, 52, 67, 52, 68, 52, 69, 52, 70, 53, 48, 53,
  49, 53, 50, 53, 51, 53, 52, 53, 53, 53, 54, 53, 55, 53, 56, 53, 57, 53, 65, 53, 66, 53, 67, 53,
  68, 53, 69, 53, 70, 54, 48, 54, 49, 54, 50, 54, 51, 54, 52, 54, 53, 54, 54, 54, 55, 54, 56, 54,
  57, 54, 65, 54, 66, 54, 67, 54, 68, 54, 69, 54, 70, 55, 48, 55, 49, 55, 50, 55, 51, 55, 52, 55,
  53, 55, 54, 55, 55, 55, 56, 55, 57, 55, 65, 55, 66, 55, 67, 55, 68, 55, 69, 55, 70, 56, 48, 56,
  49, 56, 50, 56, 51, 56, 52, 56, 53, 56, 54, 56, 55, 56, 56, 56, 57, 56, 65, 56, 66, 56, 67, 56,
  68, 56, 69, 56, 70, 57, 48, 57, 49, 57, 50, 57, 51, 57, 52, 57, 53, 57, 54, 57, 55, 57, 56, 57,
  57, 57, 65, 57, 66, 57, 67, 57, 68, 57, 69, 57, 70, 65, 48, 65, 49, 65, 50, 65, 51, 65, 52, 65,
  53, 65, 54, 65, 55, 65, 56, 65, 57, 65, 65, 65, 66, 65, 67, 65, 68, 65, 69, 65, 70, 66, 48, 66,
  49, 66, 50, 66, 51, 66, 52, 66, 53, 66, 54, 66, 55, 66, 56, 66, 57, 66, 65, 66, 66, 66, 67, 66,
  68, 66, 69, 66, 70, 67, 48, 67, 49, 67, 50, 67, 51, 67, 52, 67, 53, 67, 54, 67, 55, 67, 56, 67,
  57, 67, 65, 67, 66, 67, 67, 67, 68, 67, 69, 67, 70, 68, 48, 68, 49, 68, 50, 68, 51, 68, 52, 68,
  53, 68, 54, 68, 55, 68, 56, 68, 57, 68, 65, 68, 66, 68, 67, 68, 68, 68, 69, 68, 70, 69, 48, 69,
  49, 69, 50, 69, 51, 69, 52, 69, 53, 69, 54, 69, 55, 69, 56, 69, 57, 69, 65, 69, 66, 69, 67, 69,
  68, 69, 69, 69, 70, 70, 48, 70, 49, 70, 50, 70, 51, 70, 52, 70, 53, 70, 54, 70, 55, 70, 56, 70,
  57, 70, 65, 70, 66, 70, 67, 70, 68, 70, 69, 70, 70>>) = <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11,
  12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
  36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59,
  60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83,
  84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106,
  107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125,
  126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144,
  145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163,
  164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182,
  183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201,
  202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220,
  221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
  240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>
\* RFC 4648
ASSUME Base64Encode(<<251, 255, 190>>) = <<43, 47, 43, 43>>
\* RFC 4648
ASSUME Base64Decode(<<43, 47, 43, 43>>) = <<251, 255, 190>>
\* RFC 4648
ASSUME Base16Encode(<<251, 255, 190>>) = <<102, 98, 102, 102, 98, 101>>
\* RFC 4648
ASSUME Base16Decode(<<70, 66, 70, 70, 66, 69>>) = <<251, 255, 190>>
\* odd length text
ASSUME Base16Decode(<<97, 98, 99>>) = <<10, 188>>
\* Base-64 validity
ASSUME Base64Valid(<<81, 81, 61, 61>>) = TRUE
\* Base-64 validity
ASSUME Base64Valid(<<81, 81, 61>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<81, 61, 61, 61>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<61, 61, 61, 61>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<61>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<81, 85, 74, 68>>) = TRUE
\* Base-64 validity
ASSUME Base64Valid(<<81, 85, 61, 68>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<81, 85, 73, 61>>) = TRUE
\* Base-64 validity
ASSUME Base64Valid(<<81, 81, 61, 61, 81, 85, 74, 68>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<81, 85, 195, 68>>) = FALSE
\* Base-64 validity
ASSUME Base64Valid(<<>>) = TRUE
\* Base-64 validity
ASSUME Base64Valid(<<81, 85, 74>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<>>) = TRUE
\* Base-16 validity
ASSUME Base16Valid(<<48>>) = TRUE
\* Base-16 validity
ASSUME Base16Valid(<<48, 103>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<97, 70, 48, 57>>) = TRUE
\* Base-16 validity
ASSUME Base16Valid(<<64, 97>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<96, 97>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<47, 97>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<58, 97>>) = FALSE
\* Base-16 validity
ASSUME Base16Valid(<<225, 97>>) = FALSE

-----------------------------------------------------------------------------
\* The values of Long.tla, as far as TLC can reach them.
ASSUME \A k \in DOMAIN LongTab :
    LongFinish(k[1], k[2], k[3], <<1, 2, 3>>) = LongAnswers[k]
ASSUME \A k \in DOMAIN LongKeys :
    k[2] <= 257 => LongKeys[k] = Pbkdf2Of(k[1], LongPassword, LongSalt, k[2], 20)
ASSUME LongTags[<<0, 100>>] =
    AeadTag(LongAeadKey, LongAeadIv, <<>>, AeadCrypt(LongAeadKey, LongAeadIv, 0, Zeros(100)))
=============================================================================
