----------------------------- MODULE SortedMap -----------------------------
(* The sorted map (and set) as its users see it: a finite map from totally   *)
(* ordered keys to values, with ordered iterators over it.  Keys and values  *)
(* are integers; Nil stands for Go's nil.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Nil == -1

VARIABLES m,       \* the map: a function from the present keys to values
          its,     \* open iterators: slot -> [rest: keys still to yield, vals]
          resp     \* reply of the last call

smvars == <<m, its, resp>>

Empty == [k \in {} |-> Nil]
SMInit == m = Empty /\ its = <<>> /\ resp = <<>>

At(k) == IF k \in DOMAIN m THEN m[k] ELSE Nil

(* put replaces the value of k and returns the one it replaces *)
Put(k, v) == /\ resp' = <<At(k)>>
             /\ m' = [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
             /\ its' = <<>>               \* iterators do not survive changes

Rem(k) == /\ resp' = <<At(k)>>
             /\ m' = [x \in DOMAIN m \ {k} |-> m[x]]
             /\ its' = <<>>

Get(k)   == resp' = <<At(k)>> /\ UNCHANGED <<m, its>>
Exist(k) == resp' = <<k \in DOMAIN m>> /\ UNCHANGED <<m, its>>
Size     == resp' = <<Cardinality(DOMAIN m)>> /\ UNCHANGED <<m, its>>

InRange(k, s, e) == (s = Nil \/ k >= s) /\ (e = Nil \/ k < e)
Selected(s, e) == SetToSortSeq({k \in DOMAIN m : InRange(k, s, e)},
                               LAMBDA a, b : a < b)

(* open an iterator over the keys of [s, e); Nil leaves a side unbounded *)
Open(i, s, e) == /\ its' = [x \in DOMAIN its \cup {i} |->
                              IF x = i THEN [rest |-> Selected(s, e), pos |-> 0]
                              ELSE its[x]]
                 /\ resp' = <<>>
                 /\ UNCHANGED m

Entry(it, p) == IF p <= Len(it.rest)
                THEN <<it.rest[p], m[it.rest[p]]>> ELSE <<Nil, Nil>>

HasNext(i) == resp' = <<its[i].pos < Len(its[i].rest)>> /\ UNCHANGED <<m, its>>
Peek(i)    == resp' = Entry(its[i], its[i].pos + 1) /\ UNCHANGED <<m, its>>
Next_(i)   == /\ resp' = Entry(its[i], its[i].pos + 1)
              /\ its' = [its EXCEPT ![i].pos =
                           IF @ < Len(its[i].rest) THEN @ + 1 ELSE @]
              /\ UNCHANGED m

(* the same for many keys at once: the i-th key is (off + i * step) % mod,    *)
(* all different; the replies are counted and summed up                        *)
BulkKeys(n, off, step, mod) == {(off + i * step) % mod : i \in 0..(n - 1)}
BulkVal(set, k, tag) == IF set THEN k ELSE (k + tag) % 251
Replies(K) == <<Cardinality(K \cap DOMAIN m),
                FoldSet(LAMBDA k, acc : (acc + m[k]) % 65521, 0, K \cap DOMAIN m)>>
Fill(set, n, off, step, mod, tag) ==
  \E K \in {BulkKeys(n, off, step, mod)} :      \* TLC computes it once
     /\ resp' = Replies(K)
     /\ m' = [k \in DOMAIN m \cup K |-> IF k \in K THEN BulkVal(set, k, tag) ELSE m[k]]
     /\ its' = <<>>
Drop(n, off, step, mod) ==
  \E K \in {BulkKeys(n, off, step, mod)} :      \* TLC computes it once
     /\ resp' = Replies(K)
     /\ m' = [k \in DOMAIN m \ K |-> m[k]]
     /\ its' = <<>>
(* what all lookups of 0..Len(vals)-1 and an iteration show *)
Shows(vals, ik, iv) ==
  /\ \A k \in DOMAIN m : k < Len(vals)
  /\ \A i \in 1..Len(vals) : vals[i] = At(i - 1)
  /\ Len(ik) = Cardinality(DOMAIN m) /\ Len(iv) = Len(ik)
  /\ \A i \in 1..Len(ik) : ik[i] \in DOMAIN m /\ iv[i] = m[ik[i]]
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

-----------------------------------------------------------------------------
(* Height of the tallest height-balanced binary tree with n nodes: a search  *)
(* in such a tree meets at most so many nodes.                               *)
(* A tree of height h has at least low nodes, one of height h + 1 at least up. *)
RECURSIVE Tallest(_, _, _, _)
Tallest(n, h, low, up) == IF n < up THEN h ELSE Tallest(n, h + 1, up, low + up + 1)
TallestAVL(n) == Tallest(n, 0, 0, 1)
ASSUME \A n \in 1..100 : TallestAVL(n) = CHOOSE h \in 1..9 :
         /\ n >= <<1, 2, 4, 7, 12, 20, 33, 54, 88>>[h]
         /\ h = 9 \/ n < <<2, 4, 7, 12, 20, 33, 54, 88, 143>>[h]
=============================================================================
