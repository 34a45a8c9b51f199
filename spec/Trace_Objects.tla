--------------------------- MODULE Trace_Objects ---------------------------
(* Recorded constructions, modifications, encodings, decodings and copies of  *)
(* real objects as behaviours of Objects.                                     *)
EXTENDS Objects, TraceBase
tvars == <<l, heap, hd, held>>
TInit == l = 1 /\ OInit
TBegin == Is("begin") /\ heap' = <<>> /\ hd' = <<>> /\ held' = <<>>

S == hd[ev.s]
Part(p) == CASE p = "key" -> 1 [] p = "k" -> 1 [] p = "val" -> 2 [] p = "v" -> 2
             [] p = "sch" -> 3 [] p = "s" -> 3

TMake == /\ Is("mk")
         /\ ev.err = FALSE
         /\ Make(ev.n, CASE ev.kind = "key" -> [Blank EXCEPT !.k = "key", !.s = ev.bb, !.con = ev.str # "e"]
                         [] ev.kind = "prim" -> [Blank EXCEPT !.b = ev.b]
                         [] ev.kind = "smp" -> [Blank EXCEPT !.k = "smp", !.con = FALSE, !.b = DecVarchar(ev.b)[3]]
                         [] ev.kind = "rec" -> [Blank EXCEPT !.k = "rec", !.r = <<0, 0, 0>>]
                         [] ev.kind = "leaf" -> [Blank EXCEPT !.k = "leaf", !.con = FALSE, !.b = ev.content]
                         [] ev.kind = "sch" -> [Blank EXCEPT !.k = "sch", !.con = FALSE, !.x = DecScheme(ev.b)[3]]
                         [] OTHER -> [Blank EXCEPT !.k = ev.kind])
(* a modification that the object offers *)
TAdd == Is("add") /\ ev.can /\ AddSub(S, ev.b)
TApp == Is("app") /\ ev.can /\ AppendPart(S, hd[ev.e])
TDel == Is("del") /\ ev.can /\ DeletePart(S, ev.i)
TSet == /\ Is("set") /\ ev.can
        /\ CASE ev.kind \in {"key", "val", "sch"} -> SetPart(S, Part(ev.kind), hd[ev.e])
             [] ev.kind = "k" -> SetBytes(S, 1, [Blank EXCEPT !.k = "key", !.s = <<ev.b>>])
             [] ev.kind \in {"v", "s"} -> SetBytes(S, Part(ev.kind), [Blank EXCEPT !.b = ev.b])
             [] ev.kind = "time" -> SetTime(S, ev.b)
             [] ev.kind = "sig" -> SetSig(S, ev.b)
TPut == Is("put") /\ ev.can /\ SetAt(S, ev.bb, IF ev.flag THEN 0 ELSE hd[ev.e])
TEnc == Is("enc") /\ Encode(S, ev.err, IF ev.err THEN <<>> ELSE ev.r)
THeld == Is("held") /\ Held(ev.i, ev.r)
TBuf == Is("buf") /\ Bytes(S, ev.has, IF ev.has THEN ev.r ELSE <<>>)
TLook == /\ Is("look")
         /\ Sound(S) => IF heap[S].k = "trie"
                        THEN /\ {ev.r[i] : i \in 1..Len(ev.r)} = Pairs(heap, S, ShowVal)
                             /\ Len(ev.r) = Cardinality(Pairs(heap, S, ShowVal))
                        ELSE ev.r = Show(heap, S)
         /\ UNCHANGED ovars
(* a decoded trie offers no modifiable copy *)
TCopy == /\ Is("copy")
         /\ IF ev.err THEN ev.flag /\ heap[S].k = "trie" /\ ~heap[S].con /\ UNCHANGED ovars
            ELSE Copy(S, ev.n, ev.flag)
TParse == Is("parse") /\ ev.err = FALSE /\ ev.used = ev.len /\ Parse(S, ev.n)
(* something the object consists of *)
TKid == /\ Is("kid")
        /\ LET o == heap[S]
               c == CASE ev.kind = "val" -> o.r[ev.i + 1]
                      [] ev.kind = "rec" -> o.r[ev.i + 1]
                      [] ev.kind = "key" -> o.r[1]
                      [] ev.kind = "value" -> o.r[2]
                      [] ev.kind = "scheme" -> o.r[3]
                      [] ev.kind = "get" -> IF HasAt(o, ev.bb) THEN o.r[At(o, ev.bb)] ELSE 0
           IN /\ Sound(S) => (ev.none <=> c = 0)
              /\ IF ev.none THEN UNCHANGED ovars ELSE Name(ev.n, c) /\ UNCHANGED heap
TAsk == /\ Is("ask") /\ Protocol(S, ev.isdec, ev.isenc)
        /\ Sound(S) => /\ heap[S].k \in ValKinds => ValueAnswers(S, ev)
                       /\ heap[S].k = "key" => KeyAnswers(S, ev)
                       /\ ev.magic                       \* the first byte
        /\ UNCHANGED ovars
TRefuse == Is("refuse") /\ Refused(S, ev.kind, ev.err)
TRedec == Is("redec") /\ Redecoded(S, ev.err, ev.used, ev.r)
TPrint == Is("print") /\ UNCHANGED ovars
TScribble == Is("scrib") /\ Scribble(S)
TPoke == Is("poke") /\ Poke(S)

Spec == TInit /\ [][TBegin \/ TMake \/ TAdd \/ TApp \/ TDel \/ TSet \/ TPut \/ TEnc \/ THeld \/ TBuf \/ TLook
                    \/ TCopy \/ TParse \/ TKid \/ TScribble \/ TPoke
                    \/ TAsk \/ TRefuse \/ TRedec \/ TPrint]_tvars
=============================================================================
