------------------------------ MODULE Trace_B58 ------------------------------
(* Recorded encodings of byte strings, followed by decoding the text, and     *)
(* decodings of texts, followed by encoding the bytes.                        *)
EXTENDS Base58, TraceBase
TInit == l = 1
TBegin == Is("begin")
TEnc == /\ Is("b58enc")
        /\ ev.s = Encode58(ev.b)
        /\ ev.nil = FALSE /\ ev.d = ev.b
TDec == /\ Is("b58dec")
        /\ IF Valid58(ev.b) THEN ev.nil = FALSE /\ ev.d = Decode58(ev.b) /\ ev.again = ev.b
           ELSE ev.nil = TRUE
Spec == TInit /\ [][TBegin \/ TEnc \/ TDec]_l
=============================================================================
