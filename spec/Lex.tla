-------------------------------- MODULE Lex --------------------------------
(* Lexicographic order of sequences, on sequences of integers, of sequences  *)
(* of integers, and of optional sequences.                                    *)
EXTENDS Integers, Sequences

Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* first position where a and b differ, or the shorter length plus 1 *)
RECURSIVE DiffFrom(_, _, _)
DiffFrom(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN i
                     ELSE IF a[i] # b[i] THEN i ELSE DiffFrom(a, b, i + 1)

(* sequences of integers: -1, 0 or 1 *)
LexInt(a, b) ==
  LET i == DiffFrom(a, b, 1)
  IN IF i <= Len(a) /\ i <= Len(b) THEN Sign(a[i] - b[i]) ELSE Sign(Len(a) - Len(b))

(* sequences of sequences of integers *)
LexSeq(a, b) ==
  LET i == DiffFrom(a, b, 1)
  IN IF i <= Len(a) /\ i <= Len(b) THEN LexInt(a[i], b[i]) ELSE Sign(Len(a) - Len(b))

(* possibly absent sequences of elements that are sequences of integers: an  *)
(* absent one (nil) orders before any other and equals only an absent one     *)
LexOpt(an, a, bn, b) ==
  IF an /\ bn THEN 0 ELSE IF an THEN -1 ELSE IF bn THEN 1 ELSE LexSeq(a, b)
EqOpt(an, a, bn, b) == an = bn /\ a = b

(* against nothing at all: no object equals it, and objects come after it;   *)
(* the order of an object that holds a nil slice is left open                 *)
AfterNil(an, c) == c = 1 \/ (an /\ c = 0)

(* Order axioms of an order cmp with equality eq over a set S *)
TotalOrder(S, cmp(_, _), eq(_, _)) ==
  /\ \A a \in S : cmp(a, a) = 0
  /\ \A a, b \in S : /\ cmp(a, b) \in {-1, 0, 1}
                     /\ cmp(a, b) = -cmp(b, a)
                     /\ (cmp(a, b) = 0) = eq(a, b)
  /\ \A a, b, c \in S : cmp(a, b) <= 0 /\ cmp(b, c) <= 0 => cmp(a, c) <= 0
=============================================================================
