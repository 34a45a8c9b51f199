---------------------------- MODULE HashDisplace ----------------------------
(* Construction of a minimal perfect hash table by hash and displace.  The    *)
(* keys are distributed over buckets by a first hash; bucket by bucket, the    *)
(* largest first, seeds are tried until the second hash puts the bucket's keys *)
(* into free slots.  What a hash function gives is chosen freely for every new *)
(* seed, the same for a key whenever it is asked again with that seed.          *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Keys,      \* indices of the keys
          Buckets,   \* 0 .. size of level 0 - 1
          Slots      \* 0 .. size of level 1 - 1, at least as many as keys

VARIABLES bucketOf,  \* first hash of every key
          todo,      \* buckets not placed yet
          cur,       \* bucket under way, or -1
          pending,   \* its keys not placed yet
          slot,      \* slots of the keys under the present seed of their bucket, or -1
          occ,       \* occupied slots
          level1     \* slot -> index written last, 0 from the start
vars == <<bucketOf, todo, cur, pending, slot, occ, level1>>

In(b) == {k \in Keys : bucketOf[k] = b}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
First == IF Keys = {} THEN 0 ELSE Least(Keys)      \* index 0

Init == /\ bucketOf \in [Keys -> Buckets]
        /\ todo = {b \in Buckets : \E k \in Keys : bucketOf[k] = b}
        /\ cur = -1 /\ pending = {}
        /\ slot = [k \in Keys |-> -1]
        /\ occ = {}
        /\ level1 = [s \in Slots |-> First]

(* the largest bucket left, any of several *)
Pick == /\ cur = -1 /\ todo # {}
        /\ \E b \in todo : /\ \A c \in todo : Cardinality(In(b)) >= Cardinality(In(c))
                           /\ cur' = b /\ pending' = In(b) /\ todo' = todo \ {b}
        /\ UNCHANGED <<bucketOf, slot, occ, level1>>

(* the next key of the bucket falls into a free slot *)
Place(s) == /\ cur # -1 /\ pending # {}
            /\ LET k == Least(pending)
               IN /\ s \notin occ
                  /\ occ' = occ \cup {s}
                  /\ slot' = [slot EXCEPT ![k] = s]
                  /\ level1' = [level1 EXCEPT ![s] = k]
                  /\ pending' = pending \ {k}
            /\ UNCHANGED <<bucketOf, todo, cur>>
(* or into an occupied one: its other slots are given back, next seed *)
Retry == /\ cur # -1 /\ pending # {} /\ occ # {}
         /\ occ' = occ \ {slot[k] : k \in In(cur) \ pending}
         /\ slot' = [k \in Keys |-> IF k \in In(cur) THEN -1 ELSE slot[k]]
         /\ pending' = In(cur)
         /\ UNCHANGED <<bucketOf, todo, cur, level1>>
Finish == /\ cur # -1 /\ pending = {}
          /\ cur' = -1
          /\ UNCHANGED <<bucketOf, todo, pending, slot, occ, level1>>
Next == Pick \/ Retry \/ Finish \/ \E s \in Slots : Place(s)

(* The family of hash functions is rich enough: however many keys of the      *)
(* bucket are left, the next seed tried often enough places one more.          *)
Fairness == /\ WF_vars(Pick) /\ WF_vars(Finish)
            /\ \A n \in 1..Cardinality(Keys) :
                 SF_vars(Cardinality(pending) = n /\ \E s \in Slots : Place(s))
Spec == Init /\ [][Next]_vars /\ Fairness

Done == cur = -1 /\ todo = {}
Placed == {k \in Keys : slot[k] # -1}
(* lookups: the seed of a key's bucket gives its slot, the slot its index *)
Finds == \A k \in Placed : level1[slot[k]] = k
NoSharing == \A j, k \in Placed : j # k => slot[j] # slot[k]
Occupied == occ = {slot[k] : k \in Placed}
InRange == \A s \in Slots : level1[s] \in Keys \/ Keys = {}
Complete == Done => Placed = Keys
Terminates == <>Done
=============================================================================
