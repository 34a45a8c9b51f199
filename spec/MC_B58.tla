------------------------------- MODULE MC_B58 -------------------------------
(* Encoding and decoding are inverse on byte strings and on valid texts.      *)
EXTENDS Base58, TLC, Json, FiniteSets
CONSTANTS Bytes, Codes, MaxLen
Strs(S) == UNION {[1..n -> S] : n \in 0..MaxLen}
VARIABLES kind, x
Init == \/ kind = "bytes" /\ x \in Strs(Bytes)
        \/ kind = "text" /\ x \in Strs(Codes)
Next == UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
X == [i \in 1..Len(x) |-> x[i]]
Inverts == IF kind = "bytes" THEN Valid58(Encode58(X)) /\ Decode58(Encode58(X)) = X
           ELSE Valid58(X) => Encode58(Decode58(X)) = X
ASSUME Cardinality(Chars) = 58
Emit == PrintT(<<"VF_EMIT", ToJson(<<kind, X>>)>>)
=============================================================================
