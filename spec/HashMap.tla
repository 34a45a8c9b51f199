------------------------------ MODULE HashMap ------------------------------
(* The hash map (and set) as its users see it: a finite map, whatever the    *)
(* hash values of the keys and the capacity of the table, with iterators     *)
(* that yield the entries in any order.                                       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Nil == -1

VARIABLES m,       \* function from the present keys to values
          its,     \* slot -> [left: keys to yield, peeked: key shown or Nil]
          resp

hmvars == <<m, its, resp>>

Empty == [k \in {} |-> Nil]
HMInit == m = Empty /\ its = <<>> /\ resp = <<>>

At(k) == IF k \in DOMAIN m THEN m[k] ELSE Nil

Put(k, v) == /\ resp' = <<At(k)>>
             /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
             /\ its' = <<>>
Rem(k) == /\ resp' = <<At(k)>>
          /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
          /\ its' = <<>>
Get(k)   == resp' = <<At(k)>> /\ UNCHANGED <<m, its>>
Exist(k) == resp' = <<k \in DOMAIN m>> /\ UNCHANGED <<m, its>>
Size     == resp' = <<Cardinality(DOMAIN m)>> /\ UNCHANGED <<m, its>>

Set(f, i, x) == [y \in DOMAIN f \cup {i} |-> IF y = i THEN x ELSE f[y]]

Open(i) == /\ its' = Set(its, i, [left |-> DOMAIN m, peeked |-> Nil])
           /\ resp' = <<>>
           /\ UNCHANGED m
HasNext(i) == resp' = <<its[i].left # {}>> /\ UNCHANGED <<m, its>>
(* k is the key yielded, Nil when nothing is left; what was peeked is next *)
May(i, k) == IF its[i].left = {} THEN k = Nil
             ELSE k \in its[i].left /\ (its[i].peeked = Nil \/ its[i].peeked = k)
Peek(i, k) == /\ May(i, k)
              /\ resp' = <<k, At(k)>>
              /\ its' = [its EXCEPT ![i].peeked = k]
              /\ UNCHANGED m
Next_(i, k) == /\ May(i, k)
               /\ resp' = <<k, At(k)>>
               /\ its' = [its EXCEPT ![i].left = @ \ {k}, ![i].peeked = Nil]
               /\ UNCHANGED m
(* the same for many keys at once: the i-th key is (off + i * step) % mod,    *)
(* all different; the replies are counted and summed up                        *)
BulkKeys(n, off, step, mod) == {(off + i * step) % mod : i \in 0..(n - 1)}
BulkVal(set, k, tag) == IF set THEN k ELSE (k + tag) % 251
Replies(K) == <<Cardinality(K \cap DOMAIN m),
                FoldSet(LAMBDA k, acc : (acc + m[k]) % 65521, 0, K \cap DOMAIN m)>>
Fill(set, n, off, step, mod, tag) ==
  \E K \in {BulkKeys(n, off, step, mod)} :      \* TLC computes it once
     /\ resp' = Replies(K)
     /\ m' = [k \in DOMAIN m \cup K |-> IF k \in K THEN BulkVal(set, k, tag) ELSE m[k]]
     /\ its' = <<>>
Drop(n, off, step, mod) ==
  \E K \in {BulkKeys(n, off, step, mod)} :      \* TLC computes it once
     /\ resp' = Replies(K)
     /\ m' = [k \in DOMAIN m \ K |-> m[k]]
     /\ its' = <<>>
(* what all lookups of 0..Len(vals)-1 and an iteration show *)
Shows(vals, ik, iv) ==
  /\ \A k \in DOMAIN m : k < Len(vals)
  /\ \A i \in 1..Len(vals) : vals[i] = At(i - 1)
  /\ Len(ik) = Cardinality(DOMAIN m) /\ Len(iv) = Len(ik)
  /\ \A i \in 1..Len(ik) : ik[i] \in DOMAIN m /\ iv[i] = m[ik[i]]
Different(s) == Cardinality({s[i] : i \in 1..Len(s)}) = Len(s)
=============================================================================
