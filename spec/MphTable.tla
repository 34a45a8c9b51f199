------------------------------ MODULE MphTable ------------------------------
(* What a perfect hash table offers: the index of every key it was built of,  *)
(* and, verified by key, nothing for any other; verified by hash another key   *)
(* may be taken for one of its own, but every table made of its bytes answers  *)
(* alike.                                                                       *)
EXTENDS Integers, Sequences
VARIABLES keys,      \* the list built of, or <<>>
          built,     \* whether there is a table
          bykey,     \* verification by key
          memo,      \* answers given for other keys
          bytes,     \* the serialised form, once known, or <<>>
          parsed     \* number of tables parsed
mphvars == <<keys, built, bykey, memo, bytes, parsed>>
NoMemo == [x \in {} |-> <<>>]
MphInit == keys = <<>> /\ built = FALSE /\ bykey = FALSE /\ memo = NoMemo /\ bytes = <<>> /\ parsed = 0
Distinct(ks) == \A i, j \in DOMAIN ks : i # j => ks[i] # ks[j]
Build(ks, m) == /\ keys' = ks /\ built' = TRUE /\ bykey' = m
                /\ memo' = NoMemo /\ bytes' = <<>> /\ parsed' = 0
IndexOf(k) == CHOOSE i \in DOMAIN keys : keys[i] = k
Has(k) == \E i \in DOMAIN keys : keys[i] = k
(* answer: <<found, index from 0, or 0 if not found>> *)
Answer(k, a) ==
  /\ built
  /\ IF Has(k) THEN a = <<TRUE, IndexOf(k) - 1>> /\ memo' = memo
     ELSE /\ bykey => a[1] = FALSE
          /\ a[1] => a[2] < Len(keys)
          /\ IF k \in DOMAIN memo THEN memo[k] = a /\ memo' = memo
             ELSE memo' = [x \in DOMAIN memo \cup {k} |-> IF x = k THEN a ELSE memo[x]]
  /\ UNCHANGED <<keys, built, bykey, bytes, parsed>>
Serialise(b) == /\ built
                /\ IF bytes = <<>> THEN b # <<>> ELSE b = bytes
                /\ bytes' = b
                /\ UNCHANGED <<keys, built, bykey, memo, parsed>>
Parse(n) == /\ bytes # <<>> /\ n = Len(bytes)
            /\ parsed' = parsed + 1
            /\ UNCHANGED <<keys, built, bykey, memo, bytes>>
=============================================================================
