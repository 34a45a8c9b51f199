------------------------------- MODULE Murmur -------------------------------
(* The 32-bit Murmur3 hash of bytes under a seed, and the hash of a key: that   *)
(* of its only sub key, or a mixture of those of all its sub keys.               *)
EXTENDS Words
C1 == <<52382, 11601>>
C2 == <<7047, 13715>>
Add5 == <<58964, 27492>>
Scramble(k) == MulW(RotL(MulW(k, C1), 15), C2)
Stir(h) == LET a == MulW(XorW(h, ShR(h, 16)), <<34283, 51819>>)
               b == MulW(XorW(a, ShR(a, 13)), <<49842, 44597>>)
           IN XorW(b, ShR(b, 16))
RECURSIVE Blocks(_, _, _)
Blocks(h, b, i) == IF i + 3 > Len(b) THEN h
                   ELSE Blocks(AddW(MulW(RotL(XorW(h, Scramble(LittleWord(b, i))), 13), <<0, 5>>), Add5), b, i + 4)
At0(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Murmur3(seed, b) ==
  LET n == Len(b)
      t == n - (n % 4) + 1                     \* the bytes after the last block
      h == Blocks(seed, b, 1)
      g == IF t > n THEN h
           ELSE XorW(h, Scramble(<<At0(b, t + 2), At0(b, t + 1) * 256 + b[t]>>))
  IN Stir(XorW(g, <<n \div 65536, n % 65536>>))
KeyHash(seed, k) ==      \* no sub key is not one empty sub key
  IF k = <<>> THEN NotW(Murmur3(seed, <<>>))
  ELSE IF Len(k) = 1 THEN Murmur3(seed, k[1])
  ELSE Stir(FoldLeft(LAMBDA h, s : XorW(MulW(h, <<256, 403>>), Murmur3(seed, s)), <<0, 0>>, k))
=============================================================================
