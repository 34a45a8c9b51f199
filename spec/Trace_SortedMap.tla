-------------------------- MODULE Trace_SortedMap --------------------------
(* Recorded calls on the real SortedMap / SortedSet as behaviours of          *)
(* SortedMap.                                                                 *)
EXTENDS SortedMap, TraceBase

tvars == <<l, m, its, resp>>

TInit == l = 1 /\ SMInit

TBegin == Is("begin") /\ m' = Empty /\ its' = <<>> /\ resp' = <<>>
TPut   == Is("put") /\ Put(ev.k, ev.v) /\ resp' = <<ev.r>>
TRem   == Is("rem") /\ Rem(ev.k) /\ resp' = <<ev.r>>
(* a lookup also reports with how many different stored keys it compared *)
TGet   == /\ Is("get")
          /\ Get(ev.k) /\ resp' = <<ev.r>>
          /\ ev.cmp <= TallestAVL(Cardinality(DOMAIN m))
TExist == /\ Is("exist")
          /\ Exist(ev.k) /\ resp' = <<ev.r>>
          /\ ev.cmp <= TallestAVL(Cardinality(DOMAIN m))
TSize  == Is("size") /\ Size /\ resp' = <<ev.r>>
TIter  == Is("iter") /\ Open(ev.i, Nil, Nil)
TRange == Is("range") /\ Open(ev.i, ev.s, ev.e)
THas   == Is("has") /\ HasNext(ev.i) /\ resp' = <<ev.r>>
TPeek  == Is("peek") /\ Peek(ev.i) /\ resp' = <<ev.rk, ev.rv>>
TNext  == Is("next") /\ Next_(ev.i) /\ resp' = <<ev.rk, ev.rv>>

TFill  == Is("fill") /\ Fill(ev.set, ev.n, ev.i, ev.j, ev.m, ev.s) /\ resp' = <<ev.old, ev.sum>>
TDrop  == Is("drop") /\ Drop(ev.n, ev.i, ev.j, ev.m) /\ resp' = <<ev.old, ev.sum>>
TCensus == /\ Is("census") /\ UNCHANGED <<m, its, resp>>
           /\ ev.r = Cardinality(DOMAIN m)
           /\ Shows(ev.vals, ev.ik, ev.iv)
           /\ Ascending(ev.ik) /\ ev.cmp <= TallestAVL(Cardinality(DOMAIN m))

TraceNext == \/ TFill \/ TDrop \/ TCensus
             \/ TBegin \/ TPut \/ TRem \/ TGet \/ TExist \/ TSize
             \/ TIter \/ TRange \/ THas \/ TPeek \/ TNext

Spec == TInit /\ [][TraceNext]_tvars
=============================================================================
