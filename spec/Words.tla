------------------------------- MODULE Words -------------------------------
(* Words of 32 bits as two 16-bit limbs, the upper one first, and their bytes. *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

XorW(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
AndW(a, b) == <<a[1] & b[1], a[2] & b[2]>>
OrW(a, b) == <<a[1] | b[1], a[2] | b[2]>>
NotW(a) == <<65535 - a[1], 65535 - a[2]>>
AddW(a, b) == LET lo == a[2] + b[2]
              IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
SumW(s) == FoldLeft(AddW, <<0, 0>>, s)
Pow(n) == 2^n
(* rotations and shifts, n below 32 *)
RECURSIVE RotR(_, _)
RotR(a, n) == IF n >= 16 THEN RotR(<<a[2], a[1]>>, n - 16)
              ELSE <<(a[1] \div Pow(n)) + (a[2] % Pow(n)) * Pow(16 - n),
                     (a[2] \div Pow(n)) + (a[1] % Pow(n)) * Pow(16 - n)>>
RotL(a, n) == RotR(a, (32 - n) % 32)
RECURSIVE ShR(_, _)
ShR(a, n) == IF n >= 16 THEN ShR(<<0, a[1]>>, n - 16)
             ELSE <<a[1] \div Pow(n), (a[2] \div Pow(n)) + (a[1] % Pow(n)) * Pow(16 - n)>>
(* the lower 32 bits of a product; limbs are multiplied by halves, since TLC's  *)
(* numbers have 31 bits                                                         *)
MulLow(x, y) ==                   \* of two limbs, as a word
  LET p == x * (y % 256)
      q == x * (y \div 256)
  IN AddW(<<p \div 65536, p % 65536>>, <<(q \div 256) % 65536, (q % 256) * 256>>)
MulW(a, b) == LET l == MulLow(a[2], b[2])
              IN <<(l[1] + MulLow(a[1], b[2])[2] + MulLow(a[2], b[1])[2]) % 65536, l[2]>>
BigBytes(a) == <<a[1] \div 256, a[1] % 256, a[2] \div 256, a[2] % 256>>
LittleBytes(a) == <<a[2] % 256, a[2] \div 256, a[1] % 256, a[1] \div 256>>
BigWord(b, i) == <<b[i] * 256 + b[i + 1], b[i + 2] * 256 + b[i + 3]>>
LittleWord(b, i) == <<b[i + 3] * 256 + b[i + 2], b[i + 1] * 256 + b[i]>>
Zeros(n) == [i \in 1..n |-> 0]
XorBytes(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
=============================================================================
