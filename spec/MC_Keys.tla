------------------------------ MODULE MC_Keys ------------------------------
(* The key order of Lex is a total order consistent with equality over all   *)
(* keys of up to three sub keys of a small set; it is not the order of the    *)
(* concatenated bytes.  Every pair is printed as a test vector.               *)
EXTENDS Lex, TLC, Json
CONSTANT MaxSubs
SubKs == {<<0>>, <<1>>, <<0, 0>>, <<0, 1>>, <<1, 0>>, <<255>>}
Keys == UNION {[1..n -> SubKs] : n \in 0..MaxSubs}
Eq(a, b) == a = b
ASSUME TotalOrder(Keys, LexSeq, Eq)
(* a proper prefix comes first; a key comes before its extensions *)
ASSUME \A k \in Keys : \A s \in SubKs : LexSeq(k, Append(k, s)) = -1
VARIABLE pair
Init == pair \in Keys \X Keys
Next == UNCHANGED pair
Spec == Init /\ [][Next]_pair
Antisymmetric == LexSeq(pair[1], pair[2]) = -LexSeq(pair[2], pair[1])
Emit == PrintT(<<"VF_EMIT", ToJson(pair)>>)
=============================================================================
