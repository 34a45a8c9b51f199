--------------------------- MODULE Trace_HashMap ---------------------------
(* Recorded calls on the real HashMap / HashSet as behaviours of HashMap.     *)
EXTENDS HashMap, TraceBase

tvars == <<l, m, its, resp>>

TInit == l = 1 /\ HMInit
TBegin == Is("begin") /\ m' = Empty /\ its' = <<>> /\ resp' = <<>>
TPut   == Is("put") /\ Put(ev.k, ev.v) /\ resp' = <<ev.r>>
TRem   == Is("rem") /\ Rem(ev.k) /\ resp' = <<ev.r>>
TGet   == Is("get") /\ Get(ev.k) /\ resp' = <<ev.r>>
TExist == Is("exist") /\ Exist(ev.k) /\ resp' = <<ev.r>>
TSize  == Is("size") /\ Size /\ resp' = <<ev.r>>
TIter  == Is("iter") /\ Open(ev.i)
THas   == Is("has") /\ HasNext(ev.i) /\ resp' = <<ev.r>>
TPeek  == Is("peek") /\ Peek(ev.i, ev.rk) /\ resp' = <<ev.rk, ev.rv>>
TNext  == Is("next") /\ Next_(ev.i, ev.rk) /\ resp' = <<ev.rk, ev.rv>>

TFill  == Is("fill") /\ Fill(ev.set, ev.n, ev.i, ev.j, ev.m, ev.s) /\ resp' = <<ev.old, ev.sum>>
TDrop  == Is("drop") /\ Drop(ev.n, ev.i, ev.j, ev.m) /\ resp' = <<ev.old, ev.sum>>
TCensus == /\ Is("census") /\ UNCHANGED <<m, its, resp>>
           /\ ev.r = Cardinality(DOMAIN m)
           /\ Shows(ev.vals, ev.ik, ev.iv)
           /\ Different(ev.ik)

TraceNext == \/ TFill \/ TDrop \/ TCensus
             \/ TBegin \/ TPut \/ TRem \/ TGet \/ TExist \/ TSize
             \/ TIter \/ THas \/ TPeek \/ TNext
Spec == TInit /\ [][TraceNext]_tvars
=============================================================================
