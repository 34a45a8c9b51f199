----------------------------- MODULE Trace_Conv -----------------------------
(* Recorded conversions: the bytes are the two halves of each limb, most      *)
(* significant first, which makes their order that of the unsigned numbers.   *)
EXTENDS Conversions, TraceBase
TInit == l = 1
TBegin == Is("begin")
TConv == Is("conv") /\ ev.b = BigEndian(ev.l) /\ ev.back = ev.l
TTime == Is("btime") /\ IF Len(ev.b) < 8 THEN ev.err = TRUE
                        ELSE ev.err = FALSE /\ ev.back = Unbytes(SubSeq(ev.b, 1, 8))
Spec == TInit /\ [][TBegin \/ TConv \/ TTime]_l
=============================================================================
