------------------------------- MODULE Base58 -------------------------------
(* Base58: the number a byte string denotes, in radix 58, each digit one of  *)
(* 58 characters, after one first character for every leading zero byte.      *)
EXTENDS Integers, Sequences, SequencesExt

(* the alphabet as character codes: digits and letters without 0, I, O and l *)
Alphabet == [i \in 1..9 |-> 48 + i] \o [i \in 1..8 |-> 64 + i] \o [i \in 1..5 |-> 73 + i]
            \o [i \in 1..11 |-> 79 + i] \o [i \in 1..11 |-> 96 + i] \o [i \in 1..14 |-> 108 + i]
Chars == {Alphabet[i] : i \in 1..58}
DigitTable == [c \in Chars |-> (CHOOSE i \in 1..58 : Alphabet[i] = c) - 1]

(* a number in radix base as digits, least significant first, times m plus a *)
RECURSIVE Spill(_, _)
Spill(c, base) == IF c = 0 THEN <<>> ELSE <<c % base>> \o Spill(c \div base, base)
MulAdd(d, m, a, base) ==
  LET r == FoldLeft(LAMBDA acc, x : LET v == x * m + acc[2]
                                    IN <<Append(acc[1], v % base), v \div base>>, <<<<>>, a>>, d)
  IN r[1] \o Spill(r[2], base)
Convert(digits, from, to) == Reverse(FoldLeft(LAMBDA acc, x : MulAdd(acc, from, x, to), <<>>, digits))

RECURSIVE Lead(_, _, _)
Lead(b, x, i) == IF i <= Len(b) /\ b[i] = x THEN Lead(b, x, i + 1) ELSE i - 1
Same(n, x) == [i \in 1..n |-> x]

Encode58(b) == LET z == Lead(b, 0, 1)
                   d == Convert(SubSeq(b, z + 1, Len(b)), 256, 58)
               IN Same(z, Alphabet[1]) \o [i \in 1..Len(d) |-> Alphabet[d[i] + 1]]
Valid58(t) == \A i \in 1..Len(t) : t[i] \in Chars
Decode58(t) == LET z == Lead(t, Alphabet[1], 1)
                   d == [i \in 1..(Len(t) - z) |-> DigitTable[t[z + i]]]
               IN Same(z, 0) \o Convert(d, 58, 256)
=============================================================================
