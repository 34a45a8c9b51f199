---------------------------- MODULE Conversions ----------------------------
(* Fixed-width numbers as 16-bit limbs and as big-endian bytes.               *)
EXTENDS Lex
BigEndian(x) == [i \in 1..(2 * Len(x)) |-> LET v == x[(i + 1) \div 2]
                                           IN IF i % 2 = 1 THEN v \div 256 ELSE v % 256]
Unbytes(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] * 256 + b[2 * i]]
=============================================================================
