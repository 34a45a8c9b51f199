---------------------------- MODULE Trace_Small ----------------------------
(* Recorded minima, maxima, choices and tests for nil. *)
EXTENDS Small, TraceBase
TInit == l = 1
TBegin == Is("begin")
TMinMax == Is("minmax") /\ ev.lo = Least(ev.kind, ev.l, ev.l2) /\ ev.hi = Greatest(ev.kind, ev.l, ev.l2)
TTernary == Is("ternary") /\ ev.int = TRUE /\ ev.r = Choice(ev.flag, ev.i, ev.j)
TNil == Is("isnil") /\ ev.kind \in Nils \cup NotNils /\ ev.r = (ev.kind \in Nils)
Spec == TInit /\ [][TBegin \/ TMinMax \/ TTernary \/ TNil]_l
=============================================================================
