----------------------------- MODULE Trace_Keys -----------------------------
(* Recorded comparisons of real keys in various forms: the result is that of *)
(* the sub key sequences, whatever the forms.                                 *)
EXTENDS Lex, TraceBase
TInit == l = 1
TBegin == Is("begin")
TCmp == /\ Is("kcmp")
        /\ ev.c = LexSeq(ev.bb, ev.cc)
        /\ ev.c2 = LexSeq(ev.cc, ev.bb)
        /\ ev.eq = (ev.bb = ev.cc) /\ ev.eq2 = ev.eq
TNil == /\ Is("knil")
        /\ AfterNil(FALSE, ev.c) /\ ev.eq = FALSE /\ ev.eqf = FALSE
Spec == TInit /\ [][TBegin \/ TCmp \/ TNil]_l
=============================================================================
