--------------------------- MODULE Trace_MphLayout ---------------------------
(* Hashes, and tables read from bytes and written as bytes, by the real code.   *)
EXTENDS MphLayout, TraceBase
VARIABLE t
tvars == <<l, t>>
TInit == l = 1 /\ t = NoTable
TBegin == Is("begin") /\ t' = NoTable
THash == Is("murmur") /\ ev.r = Murmur3(ev.l, ev.b) /\ UNCHANGED t
TKeyHash == Is("khash") /\ ev.r = KeyHash(ev.l, ev.bb) /\ UNCHANGED t
TLoad == LET d == DecTable(ev.b)
         IN IF d[1] THEN ev.err = FALSE /\ ev.n = d[2] /\ t' = d[3]
            ELSE ev.err = TRUE /\ t' = NoTable
Asked == t # NoTable /\ Find(t, ev.bb) = <<ev.ok, IF ev.ok THEN ev.r ELSE 0>>
TFind == Is("find") /\ Asked /\ UNCHANGED t
(* a table built of the keys x, and its bytes *)
TMade == LET d == DecTable(ev.b)
         IN /\ ev.err = FALSE /\ d[1] /\ d[2] = Len(ev.b) /\ d[3].bykey = ev.flag
            /\ IF ev.flag THEN d[3].keys = ev.x
               ELSE Len(d[3].hashes) = Len(ev.x)
            /\ \A i \in 1..Len(ev.x) : Find(d[3], ev.x[i]) = <<TRUE, i - 1>>
            /\ t' = d[3]
Spec == TInit /\ [][\/ TBegin \/ THash \/ TKeyHash \/ (Is("load") /\ TLoad) \/ TFind \/ (Is("make") /\ TMade)]_tvars
=============================================================================
