---------------------------- MODULE MC_TrieLayout ----------------------------
(* The bytes of every trie over a small family of keys and values read back as    *)
(* its nodes, whatever follows.  Each is printed with its bytes.                   *)
EXTENDS TrieNodes, TLC, Json
CONSTANT Long
A == <<1>>
B == <<1, 0>>
Keys == {<<>>, <<A>>, <<B>>, <<A, A>>, <<A, B>>} \cup (IF Long THEN {<<B, A, A>>, <<A, A, B>>} ELSE {})
Vals == {<<"p", <<7>>>>, <<"a", <<<<"p", <<8, 9>>>>, NilVal>>>>, <<"l", <<<<<<A>>, <<"p", <<5>>>>, NilVal, <<>>, <<>>>>>>>>}
VARIABLES f, done
Init == /\ done = FALSE
        /\ f \in [Keys -> Vals \cup {NoData}]
Next == ~done /\ done' = TRUE /\ UNCHANGED f
Spec == Init /\ [][Next]_<<f, done>>
D == {k \in Keys : f[k] # NoData}
Nodes == UNION {Pre(k) : k \in D} \cup {<<>>}
T == [p \in Nodes |-> IF p \in D THEN f[p] ELSE NoData]
Tails == {<<>>, <<0>>, <<1, 0, 0>>, <<255, 255>>}
Right == ~done \/
         LET n == T
             b == EncTrie(n)
         IN /\ \A x \in Tails : DecTrie(b \o x) = <<TRUE, Len(b), n>>
            /\ \A i \in 0..(Len(b) - 1) : ~DecTrie(SubSeq(b, 1, i))[1]
            /\ PrintT(<<"VF_EMIT", ToJson(b)>>)
=============================================================================
