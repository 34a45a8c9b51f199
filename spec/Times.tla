------------------------------- MODULE Times -------------------------------
(* Consensus times: one field (ledger: epoch) or three (raft: term, millis,  *)
(* count), compared field by field; a field is a sequence of limbs.           *)
EXTENDS Lex
SameKind(a, b) == Len(a) = Len(b)
(* <<GT, GE, EQ, NE, LT, LE>>; 1 true, 0 false, 2 refused *)
Six(a, b) ==
  IF ~SameKind(a, b) THEN <<2, 2, 2, 2, 2, 2>>
  ELSE LET c == LexSeq(a, b)
           B(p) == IF p THEN 1 ELSE 0
       IN <<B(c > 0), B(c >= 0), B(c = 0), B(c # 0), B(c < 0), B(c <= 0)>>
KindName(a) == IF Len(a) = 1 THEN "ledger" ELSE "raft"
=============================================================================
