---------------------------- MODULE MC_Digests ----------------------------
(* Published and reference vectors of the digests, the cipher and the check    *)
(* sum, and of the hexadecimal text.                                            *)
EXTENDS Aes
VARIABLE n
Init == n \in 0..255
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
HexInverse == IsHex(Hex(<<n, 255 - n>>)) /\ Unhex(Hex(<<n, 255 - n>>)) = <<n, 255 - n>>
(* every byte but 0 has one inverse, and the table holds the substitutions *)
Tables == /\ CrcTable[n + 1] = CrcEntry(n)
          /\ IF n = 0 THEN SBox[1] = Substitution(0)
             ELSE \E v \in 1..255 : Times(n, v) = 1 /\ SBox[n + 1] = Substitution(v)
Product32 == MulW(<<n * 257, 65535 - n>>, <<0, 1>>) = <<n * 257, 65535 - n>>
             /\ MulW(<<n * 257, 65535 - n>>, <<65535, 65535>>) = AddW(NotW(<<n * 257, 65535 - n>>), <<0, 1>>)
ASSUME Sha256(<<>>) = <<227, 176, 196, 66, 152, 252, 28, 20, 154, 251, 244, 200, 153, 111, 185, 36, 39, 174,
  65, 228, 100, 155, 147, 76, 164, 149, 153, 27, 120, 82, 184, 85>>
ASSUME Md5(<<>>) = <<212, 29, 140, 217, 143, 0, 178, 4, 233, 128, 9, 152, 236, 248, 66, 126>>
ASSUME Crc32(<<>>) = <<0, 0, 0, 0>>
ASSUME Sha256(<<97, 98, 99>>) = <<186, 120, 22, 191, 143, 1, 207, 234, 65, 65, 64, 222, 93, 174, 34, 35, 176,
  3, 97, 163, 150, 23, 122, 156, 180, 16, 255, 97, 242, 0, 21, 173>>
ASSUME Md5(<<97, 98, 99>>) = <<144, 1, 80, 152, 60, 210, 79, 176, 214, 150, 63, 125, 40, 225, 127, 114>>
ASSUME Crc32(<<97, 98, 99>>) = <<53, 36, 65, 194>>
ASSUME Sha256(<<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102, 103, 101, 102, 103, 104,
  102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106, 107, 108, 106, 107, 108, 109, 107,
  108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110, 111, 112, 113>>) = <<36, 141, 106, 97, 210, 6,
  56, 184, 229, 192, 38, 147, 12, 62, 96, 57, 163, 60, 228, 89, 100, 255, 33, 103, 246, 236, 237, 212, 25,
  219, 6, 193>>
ASSUME Md5(<<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102, 103, 101, 102, 103, 104,
  102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106, 107, 108, 106, 107, 108, 109, 107,
  108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110, 111, 112, 113>>) = <<130, 21, 239, 7, 150, 162,
  11, 202, 170, 225, 22, 211, 135, 108, 102, 74>>
ASSUME Crc32(<<97, 98, 99, 100, 98, 99, 100, 101, 99, 100, 101, 102, 100, 101, 102, 103, 101, 102, 103, 104,
  102, 103, 104, 105, 103, 104, 105, 106, 104, 105, 106, 107, 105, 106, 107, 108, 106, 107, 108, 109, 107,
  108, 109, 110, 108, 109, 110, 111, 109, 110, 111, 112, 110, 111, 112, 113>>) = <<23, 26, 63, 95>>
ASSUME Sha256(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
  26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
  53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<253, 234, 185, 172, 243, 113, 3, 98, 189, 38, 88, 205,
  201, 162, 158, 143, 156, 117, 127, 207, 152, 17, 96, 58, 140, 68, 124, 209, 217, 21, 17, 8>>
ASSUME Md5(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26,
  27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53,
  54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<178, 211, 245, 107, 193, 151, 253, 152, 93, 89, 101, 7, 155,
  94, 113, 72>>
ASSUME Crc32(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,
  26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52,
  53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63>>) = <<16, 14, 206, 140>>
ASSUME Sha256(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>) = <<170, 218, 237, 0, 163, 197,
  251, 184, 7, 42, 231, 241, 152, 75, 168, 25, 159, 190, 82, 114, 222, 66, 125, 17, 234, 243, 21, 131, 175,
  55, 219, 81>>
ASSUME Md5(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>) = <<253, 105, 106, 166, 57,
  172, 171, 169, 206, 14, 9, 100, 2, 143, 190, 129>>
ASSUME Crc32(<<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255,
  255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255>>) = <<185, 234, 81, 113>>
ASSUME Sha256(<<7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7>>) = <<132, 158, 105, 148, 176,
  45, 70, 6, 128, 209, 212, 217, 237, 105, 10, 163, 88, 17, 200, 128, 86, 152, 126, 11, 108, 173, 14, 184, 92,
  183, 217, 141>>
ASSUME Md5(<<7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7>>) = <<200, 60, 180, 136, 65, 204,
  42, 201, 162, 60, 48, 133, 8, 198, 126, 27>>
ASSUME Crc32(<<7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7>>) = <<166, 135, 162, 169>>
ASSUME Sha256(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<246, 22, 176, 213, 78, 120, 87, 26, 150, 17, 243, 67,
  201, 248, 224, 34, 232, 89, 233, 32, 56, 26, 176, 228, 211, 218, 1, 225, 147, 167, 189, 126>>
ASSUME Md5(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<130, 113, 203, 46, 106, 84, 97, 35, 180, 48, 150, 162,
  239, 206, 57, 210>>
ASSUME Crc32(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<81, 163, 149, 197>>
ASSUME Encipher(RoundWords(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>>), <<0, 17, 34, 51, 68, 85,
  102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>) = <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183,
  128, 112, 180, 197, 90>>
ASSUME Encipher(RoundWords(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
  23>>), <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238, 255>>) = <<221, 169, 124, 164,
  134, 76, 223, 224, 110, 175, 112, 160, 236, 13, 113, 145>>
ASSUME Encipher(RoundWords(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22,
  23, 24, 25, 26, 27, 28, 29, 30, 31>>), <<0, 17, 34, 51, 68, 85, 102, 119, 136, 153, 170, 187, 204, 221, 238,
  255>>) = <<142, 162, 183, 202, 81, 103, 69, 191, 234, 252, 73, 144, 75, 73, 96, 137>>
ASSUME Seal(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<>>)
  = <<88, 226, 252, 206, 250, 126, 48, 97, 54, 127, 29, 87, 164, 231, 69, 90>>
ASSUME Seal(<<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>) = <<3, 136, 218, 206, 96, 182, 163, 146, 243, 40, 194, 185,
  113, 178, 254, 120, 171, 110, 71, 212, 44, 236, 19, 189, 245, 58, 103, 178, 18, 87, 189, 223>>
ASSUME Seal(<<254, 255, 233, 146, 134, 101, 115, 28, 109, 106, 143, 148, 103, 48, 131, 8>>, <<202, 254, 186,
  190, 250, 206, 219, 173, 222, 202, 248, 136>>, <<217, 49, 50, 37, 248, 132, 6, 229, 165, 89, 9, 197, 175,
  245, 38, 154, 134, 167, 169, 83, 21, 52, 247, 218, 46, 76, 48, 61, 138, 49, 138, 114, 28, 60, 12, 149, 149,
  104, 9, 83, 47, 207, 14, 36, 73, 166, 181, 37, 177, 106, 237, 245, 170, 13, 230, 87, 186, 99, 123, 57, 26,
  175, 210, 85>>) = <<66, 131, 30, 194, 33, 119, 116, 36, 75, 114, 33, 183, 132, 208, 212, 156, 227, 170, 33,
  47, 44, 2, 164, 224, 53, 193, 126, 35, 41, 172, 161, 46, 33, 213, 20, 178, 84, 102, 147, 28, 125, 143, 106,
  90, 172, 132, 170, 5, 27, 163, 11, 57, 106, 10, 172, 151, 61, 88, 224, 145, 71, 63, 89, 133, 77, 92, 42,
  243, 39, 205, 100, 166, 44, 243, 90, 189, 43, 166, 250, 180>>
ASSUME Unseal(<<254, 255, 233, 146, 134, 101, 115, 28, 109, 106, 143, 148, 103, 48, 131, 8>>, <<202, 254, 186,
  190, 250, 206, 219, 173, 222, 202, 248, 136>>, <<66, 131, 30, 194, 33, 119, 116, 36, 75, 114, 33, 183, 132,
  208, 212, 156, 227, 170, 33, 47, 44, 2, 164, 224, 53, 193, 126, 35, 41, 172, 161, 46, 33, 213, 20, 178, 84,
  102, 147, 28, 125, 143, 106, 90, 172, 132, 170, 5, 27, 163, 11, 57, 106, 10, 172, 151, 61, 88, 224, 145, 71,
  63, 89, 133, 77, 92, 42, 243, 39, 205, 100, 166, 44, 243, 90, 189, 43, 166, 250, 180>>) = <<TRUE, <<217, 49,
  50, 37, 248, 132, 6, 229, 165, 89, 9, 197, 175, 245, 38, 154, 134, 167, 169, 83, 21, 52, 247, 218, 46, 76,
  48, 61, 138, 49, 138, 114, 28, 60, 12, 149, 149, 104, 9, 83, 47, 207, 14, 36, 73, 166, 181, 37, 177, 106,
  237, 245, 170, 13, 230, 87, 186, 99, 123, 57, 26, 175, 210, 85>>>>
ASSUME Unseal(<<254, 255, 233, 146, 134, 101, 115, 28, 109, 106, 143, 148, 103, 48, 131, 8>>, <<202, 254, 186,
  190, 250, 206, 219, 173, 222, 202, 248, 136>>, <<66, 131, 30, 194, 33, 119, 116, 36, 75, 114, 33, 183, 132,
  208, 212, 156, 227, 170, 33, 47, 44, 2, 164, 224, 53, 193, 126, 35, 41, 172, 161, 46, 33, 213, 20, 178, 84,
  102, 147, 28, 125, 143, 106, 90, 172, 132, 170, 5, 27, 163, 11, 57, 106, 10, 172, 151, 61, 88, 224, 145, 71,
  63, 89, 133, 77, 92, 42, 243, 39, 205, 100, 166, 44, 243, 90, 189, 43, 166, 250, 181>>) = <<FALSE, <<>>>>
=============================================================================
