-------------------------------- MODULE Aes --------------------------------
(* AES (FIPS 197) for keys of 16, 24 and 32 bytes, enciphering only, and AES-GCM *)
(* (SP 800-38D) with nonces of 12 bytes and no additional data.                   *)
EXTENDS Digests

XorAll(s) == FoldLeft(LAMBDA a, b : a ^^ b, 0, s)
(* the field of 256 elements *)
Double(x) == IF x >= 128 THEN ((2 * x) % 256) ^^ 27 ELSE 2 * x
Times(x, y) == XorAll([k \in 1..8 |-> IF (y \div Pow(k - 1)) % 2 = 1
                                      THEN FoldLeft(LAMBDA d, i : Double(d), x, Count(2, k)) ELSE 0])
Rot8(x, n) == ((x * Pow(n)) % 256) + (x \div Pow(8 - n))
(* the substitution of x whose inverse is v *)
Substitution(v) == XorAll(<<v, Rot8(v, 1), Rot8(v, 2), Rot8(v, 3), Rot8(v, 4), 99>>)
SBox == <<                \* for 0 to 255, see MC_Digests
  99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118,
  202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114,
  192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49,
  21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117,
  9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83,
  209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207, 208,
  239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163,
  64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210, 205, 12,
  19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79,
  220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10,
  73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109,
  141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8, 186, 120, 37, 46,
  28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102,
  72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105,
  217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191,
  230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22 >>

(* round keys: words of 4 bytes *)
SubWord(w) == <<SBox[w[1] + 1], SBox[w[2] + 1], SBox[w[3] + 1], SBox[w[4] + 1]>>
Rcon(n) == FoldLeft(LAMBDA x, i : Double(x), 1, Count(2, n))
RoundWords(key) ==
  LET nk == Len(key) \div 4
      first == TLCEval([i \in 1..nk |-> SubSeq(key, 4 * i - 3, 4 * i)])
      X4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
      Word(w, i) ==                  \* i from 0
        LET prev == w[i]
            t == IF i % nk = 0 THEN X4(SubWord(<<prev[2], prev[3], prev[4], prev[1]>>), <<Rcon(i \div nk), 0, 0, 0>>)
                 ELSE IF nk > 6 /\ i % nk = 4 THEN SubWord(prev) ELSE prev
        IN X4(w[i - nk + 1], t)
  IN FoldLeft(LAMBDA w, i : Append(w, Word(w, i)), first, Count(nk, 4 * (nk + 7) - 1))
RoundKey(w, r) == w[4 * r + 1] \o w[4 * r + 2] \o w[4 * r + 3] \o w[4 * r + 4]
(* a state is 16 bytes, column by column *)
Xor16(a, b) == TLCEval([i \in 1..16 |-> a[i] ^^ b[i]])
SubShift(s) == TLCEval([i \in 1..16 |-> SBox[s[((i - 1 + 4 * ((i - 1) % 4)) % 16) + 1] + 1]])
MixColumns(s) == TLCEval([i \in 1..16 |->
  LET c == 4 * ((i - 1) \div 4)
      A(k) == s[c + ((i - 1 + k) % 4) + 1]
  IN XorAll(<<Double(A(0)), Double(A(1)), A(1), A(2), A(3)>>)])
Encipher(words, block) ==
  LET last == (Len(words) \div 4) - 1
      mid == FoldLeft(LAMBDA s, r : Xor16(MixColumns(SubShift(s)), RoundKey(words, r)),
                      Xor16(block, RoundKey(words, 0)), Count(1, last - 1))
  IN Xor16(SubShift(mid), RoundKey(words, last))

(* -- GCM ------------------------------------------------------------------ *)
Bit(x, i) == (x[((i - 1) \div 8) + 1] \div Pow(7 - ((i - 1) % 8))) % 2     \* bit i from 1, of 16 bytes
HalfV(v) == LET s == [i \in 1..16 |-> (v[i] \div 2) + (IF i > 1 /\ v[i - 1] % 2 = 1 THEN 128 ELSE 0)]
            IN TLCEval(IF v[16] % 2 = 1 THEN [s EXCEPT ![1] = @ ^^ 225] ELSE s)
Halves(h) == FoldLeft(LAMBDA s, i : Append(s, HalfV(s[i])), <<h>>, Count(1, 127))
Product(x, halves) == FoldLeft(LAMBDA z, i : IF Bit(x, i) = 1 THEN Xor16(z, halves[i]) ELSE z,
                               Zeros(16), Count(1, 128))
Counter(nonce, n) == nonce \o <<0, 0, 0, n>>           \* n below 256: texts of less than 4 KB
Fill16(b) == b \o Zeros((16 - Len(b)) % 16)
GHash(words, cipher) ==
  LET halves == Halves(Encipher(words, Zeros(16)))
      data == Fill16(cipher) \o Zeros(8) \o BitLength(Len(cipher))
  IN FoldLeft(LAMBDA y, i : Product(Xor16(y, SubSeq(data, 16 * i - 15, 16 * i)), halves),
              Zeros(16), Count(1, Len(data) \div 16))
Stream(words, nonce, n) ==            \* n bytes
  SubSeq(FoldLeft(LAMBDA s, i : s \o Encipher(words, Counter(nonce, i + 1)), <<>>, Count(1, (n + 15) \div 16)), 1, n)
Tag(words, nonce, cipher) == Xor16(GHash(words, cipher), Encipher(words, Counter(nonce, 1)))
Seal(key, nonce, plain) ==
  LET words == RoundWords(key)
      cipher == XorBytes(plain, Stream(words, nonce, Len(plain)))
  IN cipher \o Tag(words, nonce, cipher)
(* <<TRUE, text>>, or <<FALSE, <<>>>> when the tag is another *)
Unseal(key, nonce, sealed) ==
  IF Len(sealed) < 16 THEN <<FALSE, <<>>>>
  ELSE LET words == RoundWords(key)
           cipher == SubSeq(sealed, 1, Len(sealed) - 16)
       IN IF Tag(words, nonce, cipher) = SubSeq(sealed, Len(sealed) - 15, Len(sealed))
          THEN <<TRUE, XorBytes(cipher, Stream(words, nonce, Len(cipher)))>>
          ELSE <<FALSE, <<>>>>
=============================================================================
