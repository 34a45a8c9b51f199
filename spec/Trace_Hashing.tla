--------------------------- MODULE Trace_Hashing ---------------------------
EXTENDS Hashing, TraceBase
TInit == l = 1 /\ HashInit
TBegin == Is("begin") /\ tab' = NoHash /\ mtab' = NoHash
(* nil and empty slices have the same content; they may share a hash *)
THash == /\ Is("hash")
         /\ ev.again = TRUE /\ ev.same = TRUE
         /\ Hash(ev.kind, ev.ll, ev.n, ev.h, ev.m)
THeq == /\ Is("heq") /\ UNCHANGED hvars
        /\ Related(ev.kind, ev.set, ev.ll, ev.str2, ev.flag, ev.x, ev.eq, ev.hs, ev.ms)
        /\ ev.eq2 = ev.eq
THnil == /\ Is("hnil") /\ UNCHANGED hvars
         /\ ev.eq = FALSE /\ ev.eqp = FALSE /\ ev.eqo = FALSE /\ ev.eqf = FALSE
         /\ ev.nn = TRUE /\ ev.nx = FALSE
Spec == TInit /\ [][TBegin \/ THash \/ THeq \/ THnil]_<<l, tab, mtab>>
=============================================================================
