--------------------------- MODULE Trace_TrieLayout --------------------------
(* The bytes of real tries, against the layout of nodes; and real tries read     *)
(* from bytes in that layout.  A trie may keep nodes that no key needs.           *)
EXTENDS TrieNodes, TraceBase
VARIABLE m               \* the entries set, or those of the bytes read
tvars == <<l, m>>
Nothing == [k \in {} |-> NilVal]
TInit == l = 1 /\ m = Nothing
TBegin == Is("begin") /\ m' = Nothing
Normal(x) == IF ev.flag THEN NilVal ELSE NormVal(x)
TSet == /\ Is("set")
        /\ LET v == Normal(ev.x)
           IN m' = IF v = NilVal THEN [k \in DOMAIN m \ {ev.bb} |-> m[k]]
                   ELSE [k \in DOMAIN m \cup {ev.bb} |-> IF k = ev.bb THEN v ELSE m[k]]
Entries(n) == LET D == {k \in DOMAIN n : n[k] # NoData} IN [k \in D |-> n[k]]
TEnc == /\ Is("enc") /\ UNCHANGED m
        /\ IF \E k \in DOMAIN m : ~ValFits(m[k]) THEN ev.err = TRUE
           ELSE /\ ev.err = FALSE
                /\ LET d == DecTrie(ev.b)
                   IN /\ d[1] /\ d[2] = Len(ev.b) /\ Entries(d[3]) = m
                      /\ EncTrie(d[3]) = ev.b
TLoad == /\ Is("tload")
         /\ LET d == DecTrie(ev.b)
            IN IF d[1] THEN ev.err = FALSE /\ ev.n = d[2] /\ m' = Entries(d[3])
               ELSE ev.err = TRUE /\ m' = Nothing
TGet == /\ Is("get") /\ UNCHANGED m
        /\ ev.r = IF ev.bb \in DOMAIN m THEN m[ev.bb] ELSE NilVal
(* all entries, in order *)
TAll == /\ Is("tall") /\ UNCHANGED m
        /\ LET e == SelectSeq(ev.list, LAMBDA x : x[2] # NilVal)
           IN /\ Len(e) = Cardinality(DOMAIN m)
              /\ \A i \in 1..Len(e) : e[i][1] \in DOMAIN m /\ e[i][2] = m[e[i][1]]
              /\ \A i \in 1..(Len(e) - 1) : LexSeq(e[i][1], e[i + 1][1]) < 0
Spec == TInit /\ [][TBegin \/ TSet \/ TEnc \/ TLoad \/ TGet \/ TAll]_tvars
=============================================================================
