------------------------------ MODULE MC_Times ------------------------------
(* The six comparisons of Times agree with one total order per kind, and are *)
(* refused across kinds.  Every pair is printed as a test vector.             *)
EXTENDS Times, TLC, Json
Vals == {<<0>>, <<1>>, <<2>>}
Ledger == {<<a>> : a \in Vals}
Raft == {<<a, b, c>> : a, b, c \in Vals}
Eq(a, b) == a = b
ASSUME TotalOrder(Ledger, LexSeq, Eq) /\ TotalOrder(Raft, LexSeq, Eq)
VARIABLE pair
Init == pair \in (Ledger \cup Raft) \X (Ledger \cup Raft)
Next == UNCHANGED pair
Spec == Init /\ [][Next]_pair
S == Six(pair[1], pair[2])
Consistent == IF SameKind(pair[1], pair[2])
              THEN /\ S[1] + S[3] + S[5] = 1
                   /\ S[2] = 1 - S[5] /\ S[6] = 1 - S[1] /\ S[4] = 1 - S[3]
                   /\ S[3] = (IF pair[1] = pair[2] THEN 1 ELSE 0)
                   /\ Six(pair[2], pair[1]) = <<S[5], S[6], S[3], S[4], S[1], S[2]>>
              ELSE \A i \in 1..6 : S[i] = 2
Emit == PrintT(<<"VF_EMIT", ToJson(pair)>>)
=============================================================================
