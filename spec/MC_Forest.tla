------------------------------ MODULE MC_Forest -----------------------------
(* All histories of a few nodes: what is under a root has the keys that lead   *)
(* to it, in order and once; nodes not put, taken away or replaced are not     *)
(* met; what a node encodes is read back.                                      *)
EXTENDS Forest, TLC, Json
CONSTANTS MaxNodes, MaxSteps
VARIABLE hist
vars == <<nodes, hist>>
Subs == {<<1>>, <<1, 0>>, <<2>>}
V(n) == IF n % 3 = 0 THEN NilVal ELSE <<"p", <<n>>>>
Init == ForestInit /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
N == Len(nodes)
Next == /\ Len(hist) < MaxSteps
        /\ \/ N = 0 /\ New(0, <<>>, V(1)) /\ Log(<<"new", 0, <<>>>>)
           \/ N > 0 /\ N < MaxNodes /\ \E p \in 1..N, k \in Subs : New(p, k, V(N + 1)) /\ Log(<<"new", p, k>>)
           \/ \E n \in 1..N : ~IsRoot(n) /\ PutUnder(n) /\ Log(<<"put", n, <<>>>>)
           \/ \E p \in 1..N : \E k \in DOMAIN nodes[p].kids : Take(p, k) /\ Log(<<"take", p, k>>)
           \/ \E n \in 1..N : N < MaxNodes /\ nodes[n].made /\ DOMAIN nodes[n].kids # {} /\ CopyNode(n) /\ Log(<<"copy", n, <<>>>>)
Spec == Init /\ [][Next]_vars

Under(r) == {Family(r)[i] : i \in 1..Len(Family(r))}
Roots == {n \in 1..N : IsRoot(n)}
Ordered == \A r \in Roots : LET f == Family(r)
                            IN \A i \in 1..(Len(f) - 1) : LexSeq(Path(f[i]), Path(f[i + 1])) < 0
(* from each node everything whose key continues its own *)
Complete == \A r \in Roots : \A n \in Under(r) :
              {Path(m) : m \in Under(n)} = {k \in {Path(m) : m \in Under(r)} :
                                              Len(k) >= Len(Path(n)) /\ SubSeq(k, 1, Len(Path(n))) = Path(n)}
Reached == \A r \in Roots : \A n \in Under(r) : Leads(r, Path(n))
Bounds == \A r \in Roots : \A s \in {<<>>, <<<<1>>>>, <<<<1>>, <<2>>>>, <<<<1, 0>>>>, <<<<3>>>>} :
            LET low == Within(r, FALSE, <<>>, TRUE, s)
                high == Within(r, TRUE, s, FALSE, <<>>)
            IN low \o high = Family(r)
ReadBack == \A n \in 1..N : \A t \in {<<>>, <<0>>, <<1, 1>>} :
              LET r == Read(Bytes(n) \o t)
              IN r[1] /\ r[2] = Len(Bytes(n)) /\ r[3] = nodes[n].k /\ r[4] = ParentAt(n) /\ r[5] = nodes[n].v
Emit == PrintT(<<"VF_EMIT", ToJson(hist')>>)
=============================================================================
