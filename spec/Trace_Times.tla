---------------------------- MODULE Trace_Times ----------------------------
EXTENDS Times, TraceBase, Codec
VARIABLES cur, lay
TInit == l = 1 /\ cur = <<>> /\ lay = FALSE
TBegin == Is("begin") /\ cur' = <<>> /\ lay' = ("layout" \in DOMAIN ev /\ ev.layout)
TCmp == Is("tcmp") /\ ev.r = Six(ev.ll, ev.x) /\ UNCHANGED <<cur, lay>>
TEnc == /\ Is("tenc") /\ cur' = <<ev.ll, ev.b>> /\ UNCHANGED lay
        /\ lay => ev.b = EncTime(IF Len(ev.ll) = 1 THEN 1 ELSE 2, ev.ll)
TDec == /\ Is("tdec") /\ UNCHANGED <<cur, lay>>
        /\ ev.ll = cur[1]
        /\ IF ev.n < 0
           THEN ev.err = FALSE /\ ev.kind = KindName(cur[1]) /\ ev.eq = TRUE /\ ev.buf = cur[2]
           ELSE ev.b = <<>> /\ ev.err = TRUE      \* a proper prefix
(* bytes that start with neither kind byte, or with one but are too short *)
TBad == /\ Is("tbad") /\ UNCHANGED <<cur, lay>>
        /\ IF ev.b = <<>> THEN ev.err = TRUE
           ELSE LET need == IF ev.b[1] = 1 THEN 5 ELSE IF ev.b[1] = 2 THEN 13 ELSE 0
                IN IF need = 0 \/ Len(ev.b) < need THEN ev.err = TRUE
                   ELSE /\ ev.err = FALSE
                        /\ ev.kind = (IF need = 5 THEN "ledger" ELSE "raft")
                        /\ ev.buf = SubSeq(ev.b, 1, need)
Spec == TInit /\ [][TBegin \/ TCmp \/ TEnc \/ TDec \/ TBad]_<<l, cur, lay>>
=============================================================================
