---------------------------- MODULE Trace_Varint ----------------------------
(* Recorded encodings of sequences of variable-length items and decodings of *)
(* their concatenation; with layout, the bytes are those of Varint.           *)
EXTENDS Varint, TraceBase
VARIABLES cur, lens, lay
TInit == l = 1 /\ cur = <<>> /\ lens = <<>> /\ lay = FALSE
TBegin == Is("begin") /\ cur' = <<>> /\ lens' = <<>> /\ lay' = ("layout" \in DOMAIN ev /\ ev.layout)
ULen(n) == <<n \div 65536, n % 65536>>
Bytes(it) == CASE it.Kind = "uint" -> EncU64(it.L)
               [] it.Kind = "int" -> EncI64(it.L)
               [] it.Kind \in {"char", "smv"} -> EncU64(ULen(Len(it.B))) \o it.B
               [] it.Kind = "nil" -> <<0>>
TSeq == /\ Is("vseq") /\ UNCHANGED lay
        /\ cur' = ev.x /\ lens' = ev.lens
        /\ \A i \in DOMAIN ev.lens : ev.lens[i] = Len(ev.parts[i]) /\ ev.lens[i] >= 1
        /\ lay => \A i \in DOMAIN ev.x : ev.parts[i] = Bytes(ev.x[i])
TDec == /\ Is("vdec") /\ UNCHANGED <<cur, lens, lay>>
        /\ ev.err = FALSE
        /\ ev.ns = lens
        /\ \A i \in DOMAIN cur :
             IF cur[i].Kind \in {"int", "uint"} THEN ev.items[i].l = cur[i].L
             ELSE ev.items[i].l = <<>> /\ ev.items[i].b = cur[i].B
(* given bytes in the layout decode to the item they denote *)
TOne == /\ Is("vone") /\ UNCHANGED <<cur, lens, lay>>
        /\ LET n == LastByte(ev.b, 1)
               u == IF n = 0 THEN <<0, 0, 0, 0>> ELSE DecU64(ev.b)
               len == u[3] * 65536 + u[4]
           IN IF n = 0 THEN ev.b # <<>> => ev.err = TRUE
              ELSE IF ev.kind \in {"int", "uint"}
              THEN LET y == IF ev.kind = "uint" THEN u ELSE DecI64(ev.b)
                       e == IF ev.kind = "uint" THEN EncU64(y) ELSE EncI64(y)
                   IN e = SubSeq(ev.b, 1, n) => ev.err = FALSE /\ ev.n = n /\ ev.item.l = y
              ELSE IF u[1] = 0 /\ u[2] = 0 /\ u[3] < 8 /\ len <= Len(ev.b) - n
                   THEN EncU64(u) = SubSeq(ev.b, 1, n) =>
                          ev.err = FALSE /\ ev.n = n + len /\ ev.item.b = SubSeq(ev.b, n + 1, n + len)
                   ELSE ev.err = TRUE
(* a long byte string: head is what precedes it in its encoding *)
TBig == /\ Is("vbig") /\ UNCHANGED <<cur, lens, lay>>
        /\ ev.same /\ ev.err = FALSE /\ ev.back /\ ev.cut
        /\ ev.used = Len(ev.head) + ev.n
        /\ lay => ev.head = EncU64(ULen(ev.n))
Spec == TInit /\ [][TBegin \/ TSeq \/ TDec \/ TOne \/ TBig]_<<l, cur, lens, lay>>
=============================================================================
