------------------------------- MODULE MC_Trie -------------------------------
(* The tree of nodes refines the map for every history over a small family of *)
(* keys; every reachable tree has no superfluous nodes, is traversed in order *)
(* for every selection, and its encoding is self-delimiting.  Each transition *)
(* is printed as a script: the shortest history that leads to the tree, then  *)
(* the operation.                                                             *)
EXTENDS TrieNodes, TLC, Json
CONSTANTS Values, Long

VARIABLES n, hist, triesv, itsv, bytesv
TR == INSTANCE Trie WITH tries <- triesv, its <- itsv, bytes <- bytesv
vars == <<n, hist, triesv, itsv, bytesv>>

A == <<1>>
B == <<1, 0>>
C == <<2>>
Keys == {<<>>, <<A>>, <<B>>, <<A, A>>, <<A, C>>, <<B, A>>, <<A, A, C>>}
        \cup (IF Long THEN {<<C, C, C>>} ELSE {})
Vals == {<<"p", <<v>>>> : v \in Values}
Data == Vals \cup {NoData}
AsV(d) == IF d = NoData THEN NilVal ELSE d

Init == n = Root /\ hist = <<>> /\ TR!TrieInit
DoSet(k, d) == /\ n' = SetR(n, k, d)[1]
               /\ TR!Set(k, AsV(d), d = NoData)
               /\ hist' = Append(hist, <<k, AsV(d)>>)
Next == \E k \in Keys, d \in Data : DoSet(k, d)
Spec == Init /\ [][Next]_vars

M == triesv[0].m
Agree == \A k \in Keys : /\ AsV(GetR(n, k)) = TR!Lookup(0, k)
                         /\ \A d \in Data : AsV(SetR(n, k, d)[2]) = TR!Lookup(0, k)
NoSuperfluous == DOMAIN n = UNION {Pre(k) : k \in DOMAIN M} \cup {<<>>}

(* a sequence of nodes read as what an iterator may yield *)
Selects(seq, sel) ==
  /\ \A i \in 1..Len(seq) : seq[i] \in DOMAIN n /\ TR!In(sel, seq[i])
  /\ \A i \in 1..(Len(seq) - 1) : LexSeq(seq[i], seq[i + 1]) < 0
  /\ \A k \in DOMAIN M : TR!In(sel, k) => \E i \in 1..Len(seq) : seq[i] = k
  /\ \A i \in 1..Len(seq) : seq[i] \in DOMAIN M \/ seq[i] \in TR!Valueless(triesv[0])
Probes == Keys \cup {<<C>>, <<A, B>>, <<B, C>>}
Iteration ==
  /\ Selects(From0(n, <<>>, <<>>), TR!All)
  /\ \A k \in Probes : Selects(KeySeq(n, k), TR!Below(k))
  /\ \A s, e \in Probes : LexSeq(s, e) <= 0 => Selects(RangeSeq(n, TRUE, s, TRUE, e), TR!Between(s, e))
  /\ \A s \in Probes : /\ Selects(RangeSeq(n, TRUE, s, FALSE, <<>>), TR!Between(s, TR!NoKey))
                       /\ Selects(RangeSeq(n, FALSE, <<>>, TRUE, s), TR!Between(TR!NoKey, s))
Tails == {<<>>, <<0>>, <<1, 1>>, <<255, 255>>}
RoundTrip == LET b == EncTrie(n)
             IN /\ \A t \in Tails : DecTrie(b \o t) = <<TRUE, Len(b), n>>
                /\ \A i \in 1..(Len(b) - 1) : ~DecTrie(SubSeq(b, 1, i))[1]
View == <<n, triesv>>
EmitOps == PrintT(<<"VF_EMIT", ToJson(hist')>>)
=============================================================================
