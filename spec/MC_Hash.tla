------------------------------ MODULE MC_Hash ------------------------------
(* A table of bucket chains that grows and shrinks (src/collection/hash.go)  *)
(* refines the hash map, for every history over a few keys with colliding    *)
(* hash values.  Load factor and multiplier are fractions.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MinCap, LfNum, LfDen, MuNum, MuDen, Emit


HV == <<0, 10, 12, 3, 5, 36, 7>>      \* hash values: collide in 10, 12 or 14 buckets
Keys == 1..Len(HV)

VARIABLES arr,                 \* chains: function 0..cap-1 -> sequence of <<key, value>>
          size, hist, m, its, resp

HM == INSTANCE HashMap

Cap == Cardinality(DOMAIN arr)
Bucket(k, cap) == HV[k] % cap

Init == arr = [b \in 0..MinCap-1 |-> <<>>] /\ size = 0 /\ hist = <<>> /\ HM!HMInit

PosIn(chain, k) == CHOOSE i \in 0..Len(chain) :
                     IF \E j \in 1..Len(chain) : chain[j][1] = k
                     THEN i > 0 /\ chain[i][1] = k ELSE i = 0

RECURSIVE Concat(_, _, _)
Concat(a, b, cap) == IF b = cap THEN <<>> ELSE a[b] \o Concat(a, b + 1, cap)

RECURSIVE Insert(_, _, _)
Insert(a, nodes, cap) ==
  IF nodes = <<>> THEN a
  ELSE LET b == Bucket(nodes[1][1], cap)
       IN Insert([a EXCEPT ![b] = <<nodes[1]>> \o @], Tail(nodes), cap)

Resize(a, cap0) ==
  LET cap == IF cap0 < MinCap THEN MinCap ELSE cap0
      old == Cardinality(DOMAIN a)
  IN IF cap = old THEN a
     ELSE Insert([b \in 0..cap-1 |-> <<>>], Concat(a, 0, old), cap)

DoPut(k, v) ==
  LET b == Bucket(k, Cap)
      i == PosIn(arr[b], k)
  IN /\ HM!Put(k, v)
     /\ hist' = Append(hist, <<"put", k, v>>)
     /\ IF i > 0
        THEN /\ resp' = <<arr[b][i][2]>>
             /\ arr' = [arr EXCEPT ![b][i] = <<k, v>>]
             /\ UNCHANGED size
        ELSE LET a1 == [arr EXCEPT ![b] = <<<<k, v>>>> \o @]
                 s1 == size + 1
             IN /\ resp' = <<-1>>
                /\ size' = s1
                /\ arr' = IF s1 * LfDen >= Cap * LfNum
                          THEN Resize(a1, (Cap * MuNum) \div MuDen) ELSE a1

DoRem(k) ==
  LET b == Bucket(k, Cap)
      i == PosIn(arr[b], k)
      c == arr[b]
  IN /\ HM!Rem(k)
     /\ hist' = Append(hist, <<"rem", k, 0>>)
     /\ IF i = 0 THEN resp' = <<-1>> /\ UNCHANGED <<arr, size>>
        ELSE LET a1 == [arr EXCEPT ![b] = SubSeq(c, 1, i-1) \o SubSeq(c, i+1, Len(c))]
                 s1 == size - 1
             IN /\ resp' = <<c[i][2]>>
                /\ size' = s1
                /\ arr' = IF s1 * LfDen * MuNum * MuNum * MuNum * MuNum
                             < LfNum * Cap * MuDen * MuDen * MuDen * MuDen
                          THEN Resize(a1, (Cap * MuDen * MuDen) \div (MuNum * MuNum))
                          ELSE a1

Next == \E k \in Keys : DoPut(k, k) \/ DoRem(k)
Spec == Init /\ [][Next]_<<arr, size, hist, m, its, resp>>

Placed == \A b \in DOMAIN arr : \A i \in 1..Len(arr[b]) : Bucket(arr[b][i][1], Cap) = b
Contents == /\ \A k \in Keys : LET c == arr[Bucket(k, Cap)] IN
                 IF k \in DOMAIN m THEN \E i \in 1..Len(c) : c[i] = <<k, m[k]>>
                 ELSE \A i \in 1..Len(c) : c[i][1] # k
            /\ \A b \in DOMAIN arr : \A i, j \in 1..Len(arr[b]) : i # j => arr[b][i][1] # arr[b][j][1]
SizeInv == size = Cardinality(DOMAIN m)
(* every operation is possible in every state: the replies of the table and  *)
(* of the map agree                                                           *)
Agree == \A k \in Keys : ENABLED DoPut(k, k) /\ ENABLED DoRem(k)

View == <<arr, m>>
EmitOps == Emit => PrintT(<<"VF_EMIT", ToJson(hist')>>)
=============================================================================
