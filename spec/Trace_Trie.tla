----------------------------- MODULE Trace_Trie -----------------------------
(* Recorded calls on real tries, constructed and decoded, as behaviours of    *)
(* Trie.                                                                      *)
EXTENDS Trie, TraceBase
CD == INSTANCE Codec

tvars == <<l, tries, its, bytes>>

TInit == l = 1 /\ TrieInit
TBegin == /\ Is("begin")
          /\ tries' = (0 :> EmptyTrie) /\ its' = <<>> /\ bytes' = <<>>

TSet == /\ Is("set")
        /\ ev.r = Lookup(0, ev.bb)
        /\ IF ev.flag THEN Set(ev.bb, NilV, TRUE) ELSE Set(ev.bb, CD!NormVal(ev.x), FALSE)
TGet == /\ Is("get")
        /\ ev.r = Lookup(ev.s, ev.bb)
        /\ UNCHANGED <<tries, its, bytes>>

Fits == \A k \in DOMAIN tries[0].m : CD!ValFits(tries[0].m[k])
TEnc == /\ Is("enc")
        /\ IF Fits /\ ~OddKeys(DOMAIN tries[0].m) /\ (OddKeys(tries[0].ghosts) => ~ev.err)
           THEN ev.err = FALSE /\ ev.isenc = TRUE /\ Encode(ev.b)
           ELSE ev.err = TRUE /\ bytes' = <<>> /\ UNCHANGED <<tries, its>>
TDec == /\ Is("dec")
        /\ Decode(ev.s)
        /\ ev.err = FALSE /\ ev.n = Len(bytes[2]) /\ ev.buf = bytes[2] /\ ev.isdec = TRUE

TOpen == /\ Is("open")
         /\ Open(ev.i, ev.s,
                 CASE ev.kind = "all" -> All
                   [] ev.kind = "key" -> IF ev.set THEN Below(ev.bb) ELSE All
                   [] ev.kind = "range" -> Between(IF ev.set THEN ev.bb ELSE NoKey,
                                                   IF ev.flag THEN ev.cc ELSE NoKey))
THas == Is("has") /\ HasNext(ev.i, ev.r)
TPeek == Is("peek") /\ Peek(ev.i, ev.rk, ev.rv)
TNext == Is("next") /\ Next_(ev.i, ev.rk, ev.rv)

Spec == TInit /\ [][TBegin \/ TSet \/ TGet \/ TEnc \/ TDec \/ TOpen \/ THas \/ TPeek \/ TNext]_tvars
=============================================================================
