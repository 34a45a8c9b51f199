---------------------------- MODULE Trace_Reading ----------------------------
(* Recorded decodings of arbitrary bytes, and all that was read of them.       *)
EXTENDS Reading, TraceBase
TInit == l = 1
Plain == {"uv", "sv", "vc"}
Got(list, k) == IF \E i \in 1..Len(list) : list[i][1] = k
                THEN list[CHOOSE i \in 1..Len(list) : list[i][1] = k][2] ELSE NilVal
Item(x) == /\ ev.item = x
           /\ ev.kind \notin Plain => ev.cp = x /\ ev.cc = Readable(ev.kind, x)
Length(r) == ev.kind \in Plain \cup {"sval"} \/ ev.blen = IF ev.kind = "key" /\ r[3] = <<>> THEN 1 ELSE r[2]
TableSays(t) == /\ \A i \in 1..Len(ev.x) : ev.got[i] = MP!Find(t, ev.x[i])
                /\ LET d == TableOf(ev.back) IN d[1] /\ d[2] = Len(ev.back) /\ d[3] = t
(* the reserved bits of a record may be refused or ignored *)
Free == ev.kind = "rec" /\ ev.b # <<>> /\ Reserved(ev.b[1]) /\ ev.err
TDec == /\ Is("dread")
        /\ \E r \in {Read(ev.kind, ev.b)} :
             IF Free THEN TRUE
             ELSE IF ~r[1] THEN ev.err = TRUE
             ELSE /\ ev.err = FALSE /\ ev.n = r[2]
                  /\ IF ev.kind = "mph" THEN TableSays(r[3])
                     ELSE /\ Item(r[3]) /\ Length(r)
                          /\ ev.kind = "trie" => \A i \in 1..Len(ev.x) : ev.got[i] = Got(r[3], ev.x[i])
Spec == TInit /\ [][Is("begin") \/ TDec]_l
=============================================================================
