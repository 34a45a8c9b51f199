--------------------------- MODULE Trace_Digests ---------------------------
(* Recorded digests, each compared with that of the specification. *)
EXTENDS Aes, TraceBase
(* the content: given in full, or the pattern of n bytes with start i and step j *)
Pattern(n, i, j) == [k \in 1..n |-> (i + j * k + (k \div 256)) % 256]
Content == IF "n" \in DOMAIN ev THEN Pattern(ev.n, ev.i, ev.j) ELSE ev.b
TInit == l = 1
TBegin == Is("begin")
TSha == Is("sha256") /\ ev.kept = TRUE /\ ev.d = Sha256(Content)
TShad == Is("sha256d") /\ ev.kept = TRUE /\ ev.d = Sha256(Sha256(Content))
TMd5 == Is("md5") /\ ev.kept = TRUE /\ ev.d = Md5(Content)
TPad == Is("pad") /\ ev.kept = TRUE /\ ev.d = Pad16(Content)
Spec == TInit /\ [][TBegin \/ TSha \/ TShad \/ TMd5 \/ TPad]_l
=============================================================================
