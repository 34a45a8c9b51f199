------------------------------- MODULE MC_AVL -------------------------------
(* The tree refines the sorted map for every history over MaxKey keys; every *)
(* reachable tree is balanced, ordered, and traversed in order for every     *)
(* range.  Each transition is printed as a script: the shortest history that *)
(* leads to the tree, then the operation.                                     *)
EXTENDS AVL, TLC, Json

CONSTANTS MaxKey, Values, Emit

VARIABLES t, hist, mm, itsv, respv

SM == INSTANCE SortedMap WITH m <- mm, its <- itsv, resp <- respv

Ks == 1..MaxKey

Init == t = E /\ hist = <<>> /\ SM!SMInit

DoPut(k, v) == LET r == PutR(t, k, v) IN
               /\ t' = r[1]
               /\ SM!Put(k, v)
               /\ respv' = <<r[2]>>          \* the tree answers as the map
               /\ hist' = Append(hist, <<"put", k, v>>)
DoRem(k) == LET r == RemoveR(t, k) IN
            /\ t' = r[1]
            /\ SM!Rem(k)
            /\ respv' = <<r[2]>>
            /\ hist' = Append(hist, <<"rem", k, 0>>)

Next == \/ \E k \in Ks : \E v \in Values : DoPut(k, IF v = 0 THEN k ELSE v)
        \/ \E k \in Ks : DoRem(k)

Spec == Init /\ [][Next]_<<t, hist, mm, itsv, respv>>

(* the replies can only be conjoined above if they agree; were they to       *)
(* differ the transition would be missing, so the agreement is stated also   *)
(* as an invariant on all pairs of state and operation                       *)
Agree == /\ \A k \in Ks : Lookup(t, k) = SM!At(k)
         /\ \A k \in Ks : RemoveR(t, k)[2] = SM!At(k) /\ PutR(t, k, 1)[2] = SM!At(k)
Ordered == SearchTree(t)
BalancedInv == Balanced(t)
Contents == Keys(t) = DOMAIN mm /\ \A k \in Keys(t) : Lookup(t, k) = mm[k]
HeightBound == Height(t) <= SM!TallestAVL(Cardinality(Keys(t)))
Iteration == \A s \in Ks \cup {-1} : \A e \in Ks \cup {-1} :
               (s = -1 \/ e = -1 \/ s <= e) => Traverse(t, s, e) = SM!Selected(s, e)

View == <<t, mm>>
EmitOps == Emit => PrintT(<<"VF_EMIT", ToJson(hist')>>)
=============================================================================
