------------------------------- MODULE Ranges -------------------------------
(* Unsigned numbers as 16-bit limbs, most significant first, of equal length; *)
(* signed ones are shifted by half the range so that their order is kept.      *)
EXTENDS Lex
LOCAL Base == 65536
Below(a, b) == LexInt(a, b) < 0
AtMost(a, b) == LexInt(a, b) <= 0
(* a - b for b <= a *)
RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, borrow) ==
  IF i = 0 THEN <<>>
  ELSE LET v == a[i] - b[i] - borrow
       IN SubFrom(a, b, i - 1, IF v < 0 THEN 1 ELSE 0) \o <<v % Base>>
Minus(a, b) == SubFrom(a, b, Len(a), 0)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i = 0 THEN <<>>
  ELSE LET v == a[i] + b[i] + carry IN AddFrom(a, b, i - 1, v \div Base) \o <<v % Base>>
Plus(a, b) == AddFrom(a, b, Len(a), 0)
RECURSIVE HalfFrom(_, _, _)
HalfFrom(a, i, carry) == IF i > Len(a) THEN <<>>
                         ELSE <<(a[i] + carry * Base) \div 2>> \o HalfFrom(a, i + 1, a[i] % 2)
Half(a) == HalfFrom(a, 1, 0)
IsSmall(a) == \A i \in 1..(Len(a) - 1) : a[i] = 0
Num(n, len) == [i \in 1..len |-> IF i = len THEN n ELSE 0]
(* bit k of a, counted from the least significant *)
Bit(a, k) == (a[Len(a) - (k \div 16)] \div 2^(k % 16)) % 2
(* a >= 2^k *)
Reaches(a, k) == \E i \in 1..Len(a) : LET w == 16 * (Len(a) - i)
                                      IN a[i] > 0 /\ (w >= k \/ (k - w < 16 /\ a[i] >= 2^(k - w)))

(* the numbers lo <= x < hi, for lo < hi *)
InRange(x, lo, hi) == AtMost(lo, x) /\ Below(x, hi)
(* lo + k/8 of the range, k in 0..7 *)
Eighth(lo, hi, k) ==
  LET d == Minus(hi, lo)
      h == Half(d)
      q == Half(h)
      e == Half(q)
      P(x, use) == IF use THEN x ELSE Num(0, Len(d))
  IN Plus(lo, Plus(P(h, k >= 4), Plus(P(q, (k \div 2) % 2 = 1), P(e, k % 2 = 1))))
=============================================================================
