----------------------------- MODULE MC_Objects -----------------------------
(* A key, a byte string, an array of it, a record of the key and the array, a *)
(* list of the record and a trie holding the array, modified, encoded, copied *)
(* and decoded in every order.  cache is what the implementation keeps: the   *)
(* bytes of the last encoding, refreshed together with those of all parts,    *)
(* dropped by own modifications only.                                         *)
EXTENDS Objects, Json
CONSTANTS Depth, MaxNodes, EmitMod
VARIABLES cache, hist
vars == <<heap, hd, held, cache, hist>>

Start == << [Blank EXCEPT !.k = "key", !.s = <<<<1>>>>],
            [Blank EXCEPT !.b = <<7>>],
            [Blank EXCEPT !.k = "arr", !.r = <<2>>],
            [Blank EXCEPT !.k = "rec", !.r = <<1, 3, 0>>],
            [Blank EXCEPT !.k = "list", !.r = <<4>>],
            [Blank EXCEPT !.k = "trie", !.r = <<3>>, !.ks = <<<<<<5>>>>>>] >>
None_ == <<-1>>
Init == /\ heap = [i \in 1..6 |-> [Start[i] EXCEPT !.src = i]]
        /\ hd = [i \in 1..6 |-> i]
        /\ cache = [i \in 1..6 |-> None_]
        /\ hist = <<>>
        /\ held = <<>>

NodesOf(n) ==
  LET o == heap[n]
      ps == {<<>>} \cup UNION {Pre(o.ks[i]) : i \in 1..Len(o.ks)}
      D(p) == IF HasAt(o, p) THEN LET v == NormVal(Val(heap, o.r[At(o, p)])) IN IF v = NilVal THEN NoData ELSE v
              ELSE NoData
  IN [p \in ps |-> D(p)]
RefEnc(n) ==
  LET o == heap[n]
  IN CASE o.k = "key" -> EncKey(o.s)
       [] o.k \in {"prim", "arr", "list"} -> EncVal(NormVal(Val(heap, n)))
       [] o.k = "rec" -> EncRec(NormRec(Rec(heap, n)))
       [] o.k = "trie" -> EncTrie(NodesOf(n))

Log(e) == hist' = Append(hist, e)
Grown(c) == [i \in 1..Len(heap') |-> IF i <= Len(c) THEN c[i]
                                     ELSE IF heap'[i].con THEN None_ ELSE <<0>>]
Drop(n) == cache' = Grown([cache EXCEPT ![n] = None_])
H == DOMAIN hd
Con(h, ks) == heap[hd[h]].con /\ heap[hd[h]].k \in ks
New == Cardinality(DOMAIN hd) + 1

Mod(h) ==
  LET n == hd[h]
  IN \/ /\ Con(h, {"key"}) /\ AddSub(n, <<2>>) /\ Drop(n) /\ Log(<<"add", h, 0>>)
     \/ /\ Con(h, {"arr"}) /\ Len(heap[n].r) < 3 /\ AppendPart(n, 2) /\ Drop(n) /\ Log(<<"app", h, 2>>)
     \/ /\ Con(h, {"arr", "list"}) /\ heap[n].r # <<>> /\ DeletePart(n, 0) /\ Drop(n) /\ Log(<<"del", h, 0>>)
     \/ /\ Con(h, {"rec"}) /\ SetPart(n, 2, 2) /\ Drop(n) /\ Log(<<"setval", h, 2>>)
     \/ /\ Con(h, {"rec"}) /\ SetBytes(n, 1, [Blank EXCEPT !.k = "key", !.s = <<<<3>>>>]) /\ Drop(n) /\ Log(<<"setk", h, 0>>)
     \/ /\ Con(h, {"rec"}) /\ SetTime(n, IF heap[n].t = <<>> THEN <<0, 0, 0, 0, 0, 0, 0, 1>> ELSE <<>>) /\ Drop(n) /\ Log(<<"time", h, 0>>)
     \/ /\ Con(h, {"trie"}) /\ SetAt(n, <<<<5>>, <<6>>>>, 2) /\ Drop(n) /\ Log(<<"put", h, 2>>)
     \/ /\ Con(h, {"trie"}) /\ SetAt(n, <<<<5>>>>, 0) /\ Drop(n) /\ Log(<<"unput", h, 0>>)
Enc(h) == LET n == hd[h]
          IN /\ heap[n].con /\ Encodable(heap, n)
             /\ Encoded(n, TRUE) /\ UNCHANGED held
             /\ cache' = [m \in 1..Len(heap) |-> IF m \in Reach(heap, n) /\ heap[m].con THEN RefEnc(m) ELSE cache[m]]
             /\ Log(<<"enc", h, 0>>)
Cp(h, con) == /\ Len(heap) < MaxNodes
              /\ ~(heap[hd[h]].k = "trie" /\ con /\ ~heap[hd[h]].con)
              /\ Copy(hd[h], New, con) /\ cache' = Grown(cache) /\ Log(<<"copy", h, IF con THEN 1 ELSE 0>>)
Pa(h) == /\ Len(heap) < MaxNodes
         /\ heap[hd[h]].con /\ Encodable(heap, hd[h])
         /\ Parse(hd[h], New) /\ cache' = Grown(cache) /\ Log(<<"parse", h, 0>>)
Ki(h) == /\ heap[hd[h]].k \in {"arr", "list"} /\ heap[hd[h]].r # <<>> /\ h > 6
         /\ Name(New, heap[hd[h]].r[1]) /\ UNCHANGED <<heap, cache>> /\ Log(<<"kid", h, 0>>)
Sc(h) == /\ hd[h] \in 1..6 /\ heap[hd[h]].k # "arr" /\ ~heap[hd[h]].bad
         /\ Scribble(hd[h]) /\ UNCHANGED cache /\ Log(<<"scrib", h, 0>>)

Next == /\ Len(hist) < Depth
        /\ \E h \in H : Sound(hd[h]) /\ (Mod(h) \/ Enc(h) \/ Cp(h, TRUE) \/ Cp(h, FALSE) \/ Pa(h) \/ Ki(h) \/ Sc(h))
Spec == Init /\ [][Next]_vars

(* what the implementation hands out satisfies the claim of Bytes *)
CacheCurrent == \A n \in 1..Len(heap) :
  heap[n].con /\ Sound(n) /\ cache[n] # None_ /\ (heap[n].dirty \/ ~heap[n].stale) => Same(heap, n, cache[n])
(* what it says about itself satisfies the claim of Protocol *)
CacheKept == \A n \in 1..Len(heap) : heap[n].con /\ heap[n].enc => cache[n] # None_
(* the reference encoding decodes to the content *)
RoundTrip == \A n \in 1..Len(heap) : Same(heap, n, RefEnc(n))
(* copies and decoded objects share no modifiable part with what was there *)
Apart == [][\A n \in 1..Len(heap') : n > Len(heap) /\ Len(hist') > 0 /\ hist'[Len(hist')][1] \in {"copy", "parse"} =>
              \A m \in Reach(heap', n) : m > Len(heap)]_vars
Frame == [][\A n \in 1..Len(heap) :
              (\A m \in Reach(heap, n) : heap'[m].r = heap[m].r /\ heap'[m].s = heap[m].s /\ heap'[m].t = heap[m].t)
                /\ heap[n].k # "trie" => Show(heap', n) = Show(heap, n)]_vars
Pick == FoldLeft(LAMBDA a, e : (a * 7 + e[2] * 3 + e[3] + Len(e[1])) % 1000003, 0, hist) % EmitMod = 0
Emit == Len(hist) = Depth /\ Pick => PrintT(<<"VF_EMIT", ToJson(hist)>>)
=============================================================================
