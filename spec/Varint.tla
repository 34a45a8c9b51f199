------------------------------- MODULE Varint -------------------------------
(* 64-bit numbers as 16-bit limbs, most significant first, and their base-128 *)
(* variable-length encoding; signed numbers are zigzag mapped first.          *)
EXTENDS Integers, Sequences, SequencesExt

(* bits, least significant first *)
Bits(limbs) == [i \in 1..(16 * Len(limbs)) |->
                  (limbs[Len(limbs) - ((i - 1) \div 16)] \div 2^((i - 1) % 16)) % 2]
FromBits(b, n) == FoldLeft(LAMBDA acc, i : acc + (IF i <= Len(b) THEN b[i] ELSE 0) * 2^(i - n[1]),
                           0, [k \in 1..(n[2] - n[1] + 1) |-> n[1] + k - 1])
ToLimbs(b, n) == [k \in 1..n |-> FromBits(b, <<16 * (n - k) + 1, 16 * (n - k) + 16>>)]
HighBit(b) == LET s == {i \in DOMAIN b : b[i] = 1}
              IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
Groups(b) == IF HighBit(b) = 0 THEN 1 ELSE (HighBit(b) + 6) \div 7
EncBits(b) == [k \in 1..Groups(b) |-> FromBits(b, <<7 * k - 6, 7 * k>>) + (IF k < Groups(b) THEN 128 ELSE 0)]
EncU64(limbs) == EncBits(Bits(limbs))
(* zigzag: 2x for x >= 0, -2x - 1 below; in bits: shift left, flip if negative *)
Zigzag(b) == LET n == Len(b) IN [i \in 1..n |-> IF i = 1 THEN b[n]
                                                ELSE (b[i - 1] + b[n]) % 2]
EncI64(limbs) == EncBits(Zigzag(Bits(limbs)))

(* bytes to bits: 7 of each, up to and including the first byte below 128 *)
RECURSIVE LastByte(_, _)
LastByte(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] < 128 THEN i ELSE LastByte(b, i + 1)
DecBits(b) == LET n == LastByte(b, 1)
              IN [i \in 1..(7 * n) |-> (b[((i - 1) \div 7) + 1] \div 2^((i - 1) % 7)) % 2]
DecU64(b) == ToLimbs(DecBits(b), 4)
Unzig(b) == [i \in 1..64 |-> LET nx == IF i < 64 /\ i + 1 <= Len(b) THEN b[i + 1] ELSE 0
                             IN (nx + b[1]) % 2]
DecI64(b) == ToLimbs(Unzig(DecBits(b)), 4)
=============================================================================
