---------------------------- MODULE Trace_Forest ----------------------------
(* Recorded calls on real trie nodes put together by hand.                    *)
EXTENDS Forest, TraceBase
tvars == <<l, nodes>>

TInit == l = 1 /\ ForestInit
TBegin == Is("begin") /\ nodes' = <<>>
Given == IF ev.flag THEN NilVal ELSE NormVal(ev.x)
Refuses(n) == ~nodes[n].made
TNew == Is("new") /\ New(ev.n, ev.b, Given)
TPut == Is("put") /\ ev.err = Refuses(nodes[ev.n].p) /\ PutUnder(ev.n)
TTake == Is("take") /\ ev.err = Refuses(ev.n) /\ Take(ev.n, ev.b)
TGive == Is("give") /\ ev.err = Refuses(ev.n) /\ Give(ev.n, Given)
TPlace == Is("place") /\ ev.err = Refuses(ev.n) /\ Place(ev.n, ev.i)
TWrite == Is("write") /\ ev.err = ~Encodes(ev.n) /\ Write(ev.n)
TCopy == Is("copy") /\ IF nodes[ev.n].made THEN CopyNode(ev.n) ELSE CopyMapped(ev.n)
Reads(b) == IF Readable(b, ev.n)
            THEN ev.err = FALSE /\ ev.len = Read(b)[2] /\ Map(b, ev.n, ev.i)
            ELSE ev.err = TRUE /\ UNCHANGED nodes
TMap == Is("map") /\ Reads(ev.b)
TAgain == Is("again") /\ Reads(nodes[ev.s].enc \o ev.b)

TLook == /\ Is("look") /\ UNCHANGED nodes
         /\ LET x == nodes[ev.n]
                ks == KeysOf(ev.n)
            IN /\ ev.path = Path(ev.n) /\ ev.own = x.k /\ ev.val = x.v /\ ev.up = x.p
               /\ ev.size = Len(ks) /\ Len(ev.kids) = Len(ks)
               /\ \A i \in 1..Len(ks) : ev.kids[i][1] = ks[i] /\ ev.kids[i][2] = x.kids[ks[i]]
               /\ ev.child = IF ev.b \in DOMAIN x.kids THEN x.kids[ev.b] ELSE 0
               /\ ev.off = x.off /\ ev.isdec = TRUE
               /\ ev.isenc = (x.enc # <<>>) /\ ev.bytes = x.enc
TList == /\ Is("list") /\ UNCHANGED nodes /\ ev.agree = TRUE
         /\ LET from == IF ev.s = 0 THEN ev.n ELSE ev.s
            IN IF ev.n # 0 /\ Begins(ev.n, from)
               THEN ev.refused = FALSE /\ ev.list = Listing(Family(from))
               ELSE ev.refused = TRUE
TRange == /\ Is("range") /\ UNCHANGED nodes /\ ev.agree = TRUE
          /\ IF ev.n = 0 \/ ~IsRoot(ev.n) \/ (ev.set /\ ev.flag /\ LexSeq(ev.bb, ev.cc) > 0)
             THEN ev.refused = TRUE
             ELSE ev.refused = FALSE /\ ev.list = Listing(Within(ev.n, ev.set, ev.bb, ev.flag, ev.cc))
Spec == TInit /\ [][TBegin \/ TNew \/ TPut \/ TTake \/ TGive \/ TPlace \/ TWrite \/ TCopy \/ TMap \/ TAgain
                    \/ TLook \/ TList \/ TRange]_tvars
=============================================================================
