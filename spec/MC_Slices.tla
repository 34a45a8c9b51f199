----------------------------- MODULE MC_Slices -----------------------------
(* The slice order of Lex is a total order consistent with equality, over    *)
(* all slices of up to three elements from a three-element domain, and nil.  *)
(* Every pair is printed as a test vector.                                    *)
EXTENDS Lex, TLC, Json

Elems == {<<0>>, <<1>>, <<2>>}
Lists == UNION {[1..n -> Elems] : n \in 0..3}
Slices == {<<TRUE, <<>>>>} \cup {<<FALSE, s>> : s \in Lists}
Cmp(a, b) == LexOpt(a[1], a[2], b[1], b[2])
Eq(a, b) == EqOpt(a[1], a[2], b[1], b[2])
ASSUME TotalOrder(Slices, Cmp, Eq)

(* the prefix rule and the first difference decide: stated independently *)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
ASSUME \A a, b \in Lists :
         LexSeq(a, b) < 0 <=> \/ Prefix(a, b) /\ a # b
                              \/ \E i \in 1..3 : /\ i <= Len(a) /\ i <= Len(b)
                                                 /\ \A j \in 1..(i-1) : a[j] = b[j]
                                                 /\ a[i][1] < b[i][1]

VARIABLE pair
Init == pair \in Slices \X Slices
Next == UNCHANGED pair
Spec == Init /\ [][Next]_pair
Emit == PrintT(<<"VF_EMIT", ToJson(pair)>>)
Antisymmetric == Cmp(pair[1], pair[2]) = -Cmp(pair[2], pair[1])
=============================================================================
