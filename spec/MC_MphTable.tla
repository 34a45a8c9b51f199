----------------------------- MODULE MC_MphTable -----------------------------
(* The table of every list of distinct keys over a small key set, and every   *)
(* answer it may give; each list is printed as a script.                       *)
EXTENDS MphTable, FiniteSets, TLC, Json
CONSTANT MaxKeys
S == {<<1>>, <<2>>}
KeySet == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
Lists == UNION {{f \in [1..n -> KeySet] : Distinct(f)} : n \in 0..MaxKeys}
Init == \E f \in Lists, m \in BOOLEAN :
          /\ keys = [i \in 1..Len(f) |-> f[i]] /\ bykey = m
          /\ built = TRUE /\ memo = NoMemo /\ bytes = <<>> /\ parsed = 0
Ask == \E k \in KeySet, ok \in BOOLEAN, i \in 0..MaxKeys : Cardinality(DOMAIN memo) < 2 /\ Answer(k, <<ok, i>>)
Next == Ask \/ (bytes = <<>> /\ Serialise(<<1>>)) \/ (parsed = 0 /\ Parse(1))
Spec == Init /\ [][Next]_mphvars
(* answers for keys of the list are determined, so never in memo *)
MemoOnlyOthers == \A k \in DOMAIN memo : ~Has(k) /\ (bykey => memo[k][1] = FALSE)
Determined == \A k \in KeySet : Has(k) => keys[IndexOf(k)] = k
Fixed == [][keys' = keys /\ bykey' = bykey /\ \A k \in DOMAIN memo : memo'[k] = memo[k]]_mphvars
Emit == memo = NoMemo /\ bytes = <<>> => PrintT(<<"VF_EMIT", ToJson(<<bykey, keys>>)>>)
=============================================================================
