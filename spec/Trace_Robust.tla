---------------------------- MODULE Trace_Robust ----------------------------
(* Recorded decodings of damaged, truncated and arbitrary bytes.             *)
EXTENDS Robust, TraceBase
tvars == <<l, kind, size, cut>>
TInit == l = 1 /\ RInit
TBegin == Is("begin") /\ kind' = "" /\ size' = 0 /\ cut' = 0
Sane == /\ ev.len >= 0
        /\ IF ev.err THEN Fails(ev.len, ev.dk) ELSE Gives(ev.len, ev.dk, ev.n, ev.rk)
(* given bytes ("raw") are not known to be valid *)
TMake == /\ Is("rmake")
         /\ ev.err = FALSE
         /\ IF ev.kind = "raw" THEN Make("", 0, FALSE) ELSE Make(ev.kind, ev.len, ev.signed)
TCut == /\ Is("rcut") /\ Sane /\ UNCHANGED rvars
        /\ kind # "" => Cut(ev.m, ev.err, IF ev.err THEN 0 ELSE ev.n)
TEdit == Is("redit") /\ Sane /\ UNCHANGED rvars
TDec == Is("rdec") /\ Sane /\ UNCHANGED rvars
Spec == TInit /\ [][TBegin \/ TMake \/ TCut \/ TEdit \/ TDec]_tvars
=============================================================================
