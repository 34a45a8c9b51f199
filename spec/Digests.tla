------------------------------ MODULE Digests ------------------------------
(* SHA-256 (FIPS 180-4), MD5 (RFC 1321) and the check sum CRC-32 (IEEE 802.3). *)
EXTENDS Words, TLC

(* padding to a multiple of 64 bytes: 128, zeros, length in bits as 8 bytes;    *)
(* lengths below 2^27 bytes                                                      *)
BitLength(n) == <<0, 0, 0, 0, (n * 8) \div 16777216, ((n * 8) \div 65536) % 256,
                  ((n * 8) \div 256) % 256, (n * 8) % 256>>
Padded(b, len) == b \o <<128>> \o Zeros((55 - Len(b)) % 64) \o len
Blocks(p) == [i \in 1..(Len(p) \div 64) |-> SubSeq(p, 64 * i - 63, 64 * i)]

(* -- SHA-256 -------------------------------------------------------------- *)
ShaStart == <<
       <<27145, 58983>>, <<47975, 44677>>, <<15470, 62322>>,
       <<42319, 62778>>, <<20750, 21119>>, <<39685, 26764>>, <<8067, 55723>>,
       <<23520, 52505>> >>
ShaK == <<
       <<17034, 12184>>, <<28983, 17553>>, <<46528, 64463>>,
       <<59829, 56229>>, <<14678, 49755>>, <<23025, 4593>>, <<37439, 33444>>,
       <<43804, 24277>>, <<55303, 43672>>, <<4739, 23297>>, <<9265, 34238>>,
       <<21772, 32195>>, <<29374, 23924>>, <<32990, 45566>>, <<39900, 1703>>,
       <<49563, 61812>>, <<58523, 27073>>, <<61374, 18310>>, <<4033, 40390>>,
       <<9228, 41420>>, <<11753, 11375>>, <<19060, 33962>>, <<23728, 43484>>,
       <<30457, 35034>>, <<38974, 20818>>, <<43057, 50797>>,
       <<45059, 10184>>, <<48985, 32711>>, <<50912, 3059>>, <<54695, 37191>>,
       <<1738, 25425>>, <<5161, 10599>>, <<10167, 2693>>, <<11803, 8504>>,
       <<19756, 28156>>, <<21304, 3347>>, <<25866, 29524>>, <<30314, 2747>>,
       <<33218, 51502>>, <<37490, 11397>>, <<41663, 59553>>,
       <<43034, 26187>>, <<49739, 35696>>, <<51052, 20899>>,
       <<53650, 59417>>, <<54937, 1572>>, <<62478, 13701>>, <<4202, 41072>>,
       <<6564, 49430>>, <<7735, 27656>>, <<10056, 30540>>, <<13488, 48309>>,
       <<14620, 3251>>, <<20184, 43594>>, <<23452, 51791>>, <<26670, 28659>>,
       <<29839, 33518>>, <<30885, 25455>>, <<33992, 30740>>, <<36039, 520>>,
       <<37054, 65530>>, <<42064, 27883>>, <<48889, 41975>>, <<50801, 30962>> >>
Ch(x, y, z) == XorW(AndW(x, y), AndW(NotW(x), z))
Maj(x, y, z) == XorW(AndW(x, y), XorW(AndW(x, z), AndW(y, z)))
Xor3(a, b, c) == XorW(a, XorW(b, c))
Upper0(x) == Xor3(RotR(x, 2), RotR(x, 13), RotR(x, 22))
Upper1(x) == Xor3(RotR(x, 6), RotR(x, 11), RotR(x, 25))
Lower0(x) == Xor3(RotR(x, 7), RotR(x, 18), ShR(x, 3))
Lower1(x) == Xor3(RotR(x, 17), RotR(x, 19), ShR(x, 10))
Count(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
ShaSchedule(block) ==
  FoldLeft(LAMBDA w, t : Append(w, SumW(<<Lower1(w[t - 2]), w[t - 7], Lower0(w[t - 15]), w[t - 16]>>)),
           TLCEval([i \in 1..16 |-> BigWord(block, 4 * i - 3)]), Count(17, 64))
ShaRound(s, w, k) ==
  LET t1 == SumW(<<s[8], Upper1(s[5]), Ch(s[5], s[6], s[7]), k, w>>)
      t2 == AddW(Upper0(s[1]), Maj(s[1], s[2], s[3]))
  IN <<AddW(t1, t2), s[1], s[2], s[3], AddW(s[4], t1), s[5], s[6], s[7]>>
ShaBlock(h, block) ==
  LET w == ShaSchedule(block)
      s == FoldLeft(LAMBDA x, t : ShaRound(x, w[t], ShaK[t]), h, Count(1, 64))
  IN TLCEval([i \in 1..8 |-> AddW(h[i], s[i])])
Concat(words, Bytes(_)) == FoldLeft(LAMBDA b, w : b \o Bytes(w), <<>>, words)
Sha256(b) == Concat(FoldLeft(ShaBlock, ShaStart, Blocks(Padded(b, BitLength(Len(b))))), BigBytes)

(* -- MD5 ------------------------------------------------------------------ *)
MdStart == << <<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>> >>
MdK == <<
       <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
       <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
       <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>,
       <<35164, 55230>>, <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>,
       <<18868, 2081>>, <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>,
       <<59830, 51114>>, <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>,
       <<59347, 64456>>, <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>,
       <<17754, 5357>>, <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>,
       <<36138, 19594>>, <<65530, 14658>>, <<34673, 63105>>,
       <<28061, 24866>>, <<64997, 14348>>, <<42174, 59972>>,
       <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
       <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
       <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
       <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
       <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>,
       <<34180, 24017>>, <<28584, 32335>>, <<65068, 59104>>,
       <<41729, 17172>>, <<19976, 4513>>, <<63315, 32386>>, <<48442, 62005>>,
       <<10967, 53947>>, <<60294, 54161>> >>
MdShift == << <<7, 12, 17, 22>>, <<5, 9, 14, 20>>, <<4, 11, 16, 23>>, <<6, 10, 15, 21>> >>
MdRound(s, m, t) ==                  \* t from 0 to 63
  LET r == t \div 16
      x == s[2] y == s[3] z == s[4]
      f == CASE r = 0 -> OrW(AndW(x, y), AndW(NotW(x), z))
             [] r = 1 -> OrW(AndW(x, z), AndW(y, NotW(z)))
             [] r = 2 -> Xor3(x, y, z)
             [] r = 3 -> XorW(y, OrW(x, NotW(z)))
      i == CASE r = 0 -> t [] r = 1 -> (5 * t + 1) % 16
             [] r = 2 -> (3 * t + 5) % 16 [] r = 3 -> (7 * t) % 16
      a == AddW(x, RotL(SumW(<<s[1], f, LittleWord(m, 4 * i + 1), MdK[t + 1]>>),
                        MdShift[r + 1][(t % 4) + 1]))
  IN <<s[4], a, s[2], s[3]>>
MdBlock(h, block) ==
  LET s == FoldLeft(LAMBDA x, t : MdRound(x, block, t), h, Count(0, 63))
  IN TLCEval([i \in 1..4 |-> AddW(h[i], s[i])])
Md5(b) == Concat(FoldLeft(MdBlock, MdStart, Blocks(Padded(b, Reverse(BitLength(Len(b)))))), LittleBytes)

(* -- CRC-32 --------------------------------------------------------------- *)
CrcStep(c) == IF c[2] % 2 = 1 THEN XorW(ShR(c, 1), <<60856, 33568>>) ELSE ShR(c, 1)
CrcEntry(n) == FoldLeft(LAMBDA c, i : CrcStep(c), <<0, n>>, Count(1, 8))
CrcTable == <<      \* CrcEntry(0) to CrcEntry(255), see MC_Digests
  <<0, 0>>, <<30471, 12438>>, <<60942, 24876>>, <<39177, 20922>>,
  <<1901, 50201>>, <<28778, 62607>>, <<59747, 42293>>, <<40548, 38307>>,
  <<3803, 34866>>, <<31196, 47268>>, <<57557, 59678>>, <<38866, 55688>>,
  <<2486, 19499>>, <<32433, 31933>>, <<59320, 11527>>, <<37055, 7569>>,
  <<7607, 4196>>, <<27312, 8434>>, <<62393, 29000>>, <<33982, 16862>>,
  <<6874, 54397>>, <<28125, 58603>>, <<62676, 46417>>, <<33747, 34247>>,
  <<4972, 38998>>, <<25707, 43200>>, <<64866, 63866>>, <<35429, 51692>>,
  <<5121, 23631>>, <<25350, 27865>>, <<64015, 15715>>, <<36104, 3573>>,
  <<15214, 8392>>, <<19561, 4190>>, <<54624, 16868>>, <<41575, 29042>>,
  <<15363, 58577>>, <<19204, 54343>>, <<53773, 34301>>, <<42250, 46443>>,
  <<13749, 43258>>, <<17074, 39020>>, <<56251, 51670>>, <<44220, 63808>>,
  <<13016, 27875>>, <<17887, 23669>>, <<56534, 3535>>, <<43985, 15705>>,
  <<9945, 12460>>, <<20958, 58>>, <<51415, 20864>>, <<49104, 24854>>,
  <<8628, 62645>>, <<22195, 50211>>, <<53178, 38297>>, <<47293, 42255>>,
  <<10242, 47262>>, <<24325, 34824>>, <<50700, 55730>>, <<45323, 59684>>,
  <<12143, 31879>>, <<22632, 19473>>, <<49505, 7595>>, <<46694, 11581>>,
  <<30428, 16784>>, <<475, 28934>>, <<39122, 8380>>, <<61397, 4138>>,
  <<29105, 34185>>, <<1718, 46367>>, <<40895, 58533>>, <<59576, 54323>>,
  <<30727, 51618>>, <<3840, 63796>>, <<38409, 43150>>, <<57614, 38936>>,
  <<32618, 3515>>, <<2157, 15661>>, <<37220, 27799>>, <<58979, 23553>>,
  <<27499, 20980>>, <<7276, 24930>>, <<34149, 12504>>, <<62050, 78>>,
  <<27654, 38381>>, <<6913, 42363>>, <<33288, 62657>>, <<62735, 50263>>,
  <<26032, 55750>>, <<4791, 59728>>, <<35774, 47338>>, <<64697, 34940>>,
  <<25309, 7647>>, <<5594, 11593>>, <<36051, 31987>>, <<64468, 19557>>,
  <<19890, 24920>>, <<15029, 20942>>, <<41916, 116>>, <<54459, 12514>>,
  <<19167, 42305>>, <<15832, 38359>>, <<42193, 50285>>, <<54230, 62715>>,
  <<17257, 59754>>, <<13422, 55804>>, <<44391, 34886>>, <<55904, 47312>>,
  <<17412, 11635>>, <<13059, 7653>>, <<43530, 19551>>, <<56589, 31945>>,
  <<20485, 28988>>, <<9986, 16810>>, <<48651, 4112>>, <<51468, 8326>>,
  <<22376, 46373>>, <<8303, 34227>>, <<47462, 54281>>, <<52833, 58527>>,
  <<24286, 63758>>, <<10713, 51608>>, <<45264, 38946>>, <<51159, 43188>>,
  <<22963, 15639>>, <<11956, 3457>>, <<47037, 23611>>, <<49338, 27821>>,
  <<60856, 33568>>, <<39615, 46006>>, <<950, 57868>>, <<29873, 53914>>,
  <<60117, 18233>>, <<40402, 30639>>, <<1243, 9749>>, <<29660, 5763>>,
  <<58211, 2834>>, <<37988, 15236>>, <<3437, 27198>>, <<31338, 23208>>,
  <<58382, 53003>>, <<37641, 65437>>, <<2560, 44583>>, <<32007, 40625>>,
  <<61455, 37700>>, <<34568, 41938>>, <<7681, 62056>>, <<26886, 49918>>,
  <<63330, 22365>>, <<32869, 26571>>, <<6508, 13937>>, <<28267, 1767>>,
  <<65236, 7030>>, <<35283, 11232>>, <<4314, 31322>>, <<26589, 19148>>,
  <<63929, 57199>>, <<36542, 61433>>, <<6071, 48707>>, <<24752, 36565>>,
  <<54998, 41960>>, <<41425, 37758>>, <<14552, 49860>>, <<20447, 62034>>,
  <<53691, 26609>>, <<42684, 22375>>, <<16309, 1757>>, <<18610, 13899>>,
  <<55309, 11226>>, <<44810, 6988>>, <<13827, 19190>>, <<16644, 31328>>,
  <<57184, 61379>>, <<43111, 57173>>, <<12654, 36591>>, <<18025, 48761>>,
  <<52065, 45964>>, <<48230, 33562>>, <<9583, 53920>>, <<21096, 57910>>,
  <<52236, 30613>>, <<47883, 18179>>, <<8706, 5817>>, <<21765, 9775>>,
  <<50618, 15294>>, <<45757, 2856>>, <<11188, 23186>>, <<23731, 27140>>,
  <<49879, 65447>>, <<46544, 53041>>, <<11481, 40587>>, <<23518, 44573>>,
  <<39780, 49840>>, <<60515, 61990>>, <<30058, 41884>>, <<621, 37642>>,
  <<39945, 1705>>, <<60174, 13887>>, <<29191, 26501>>, <<1280, 22291>>,
  <<38335, 19074>>, <<58040, 31252>>, <<31665, 11182>>, <<3254, 6968>>,
  <<37586, 36507>>, <<58837, 48653>>, <<31964, 61367>>, <<3035, 57121>>,
  <<34515, 53972>>, <<61908, 57922>>, <<26845, 46072>>, <<8154, 33646>>,
  <<33214, 5837>>, <<63161, 9819>>, <<28592, 30689>>, <<6327, 18295>>,
  <<34824, 23270>>, <<65295, 27248>>, <<26118, 15306>>, <<4353, 2908>>,
  <<36709, 40703>>, <<63586, 44649>>, <<24939, 65491>>, <<5740, 53061>>,
  <<40970, 57976>>, <<55053, 53998>>, <<19972, 33620>>, <<14595, 46018>>,
  <<42855, 9825>>, <<53344, 5879>>, <<18793, 18253>>, <<15982, 30683>>,
  <<44753, 27210>>, <<55766, 23260>>, <<16607, 2918>>, <<14296, 15344>>,
  <<43452, 44627>>, <<57019, 40645>>, <<18354, 53119>>, <<12469, 65513>>,
  <<48573, 61980>>, <<51898, 49802>>, <<21427, 37680>>, <<9396, 41894>>,
  <<47824, 13829>>, <<52695, 1683>>, <<21726, 22313>>, <<9177, 26559>>,
  <<45926, 31278>>, <<50273, 19128>>, <<23912, 6914>>, <<10863, 11156>>,
  <<46091, 48695>>, <<49932, 36513>>, <<23045, 57115>>, <<11522, 61325>> >>
Crc32(b) == BigBytes(NotW(FoldLeft(LAMBDA c, x : XorW(CrcTable[((c[2] % 256) ^^ x) + 1], ShR(c, 8)),
                                   <<65535, 65535>>, b)))

(* -- hexadecimal text ------------------------------------------------------ *)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Hex(b) == [i \in 1..(2 * Len(b)) |-> LET x == b[(i + 1) \div 2]
                                     IN HexDigit(IF i % 2 = 1 THEN x \div 16 ELSE x % 16)]
HexValue(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55
               ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : HexValue(t[i]) >= 0
Unhex(t) == [i \in 1..(Len(t) \div 2) |-> 16 * HexValue(t[2 * i - 1]) + HexValue(t[2 * i])]

(* a key of 16 bytes made of any bytes: the last 16, or filled with zeros       *)
Pad16(b) == IF Len(b) >= 16 THEN SubSeq(b, Len(b) - 15, Len(b)) ELSE b \o Zeros(16 - Len(b))
=============================================================================
