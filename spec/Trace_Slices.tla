---------------------------- MODULE Trace_Slices ----------------------------
(* Recorded comparisons of real slices and comparable wrappers. An event     *)
(* carries the results the type offers: fc, fe of the functions, wc, we of   *)
(* the wrapper objects.                                                       *)
EXTENDS Lex, TraceBase

TInit == l = 1
TBegin == Is("begin")

(* "set" and "flag" tell that the left or right slice is nil; without limbs  *)
(* an empty one                                                               *)
TCmp == /\ Is("cmp")
        /\ LET d == DOMAIN ev
               c == LexOpt(ev.set, ev.ll, ev.flag, ev.x)
               q == EqOpt(ev.set, ev.ll, ev.flag, ev.x)
           IN /\ "fc" \in d => ev.fc = c
              /\ "fe" \in d => ev.fe = q
              /\ "wc" \in d => ev.wc = c
              /\ "we" \in d => ev.we = q
              /\ "fc" \in d \/ "wc" \in d

TNil == /\ Is("cnil")
        /\ AfterNil(ev.set, ev.wc) /\ ev.we = FALSE /\ ev.again = TRUE
        /\ ev.nn = TRUE /\ ev.nx = FALSE                \* a nil pointer equals nothing but nil

(* objects of different types are never equal, others if their slices are *)
TEq == /\ Is("ceq")
       /\ ev.we = (ev.kind = ev.str /\ EqOpt(ev.set, ev.ll, ev.flag, ev.x))
       /\ ev.we2 = ev.we /\ ev.wo = FALSE /\ ev.wh = FALSE

Spec == TInit /\ [][TBegin \/ TCmp \/ TNil \/ TEq]_l
=============================================================================
