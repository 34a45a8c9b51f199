------------------------------ MODULE Trace_Id ------------------------------
EXTENDS ConsensusId, TraceBase
Xor(a, b) == LET F[i \in 0..8] == IF i = 0 THEN 0
                   ELSE F[i - 1] + (IF (a \div 2^(i-1)) % 2 # (b \div 2^(i-1)) % 2 THEN 2^(i-1) ELSE 0)
             IN F[8]
tvars == <<l, buf, id, copy>>
TInit == l = 1 /\ IdInit
TBegin == Is("begin") /\ buf' = <<>> /\ id' = <<FALSE, 0>> /\ copy' = <<>>
TNew == /\ Is("idnew") /\ New(ev.b)
        /\ ev.err = ~id'[1]
        /\ ~ev.err => ev.magic = ev.b[1] /\ ev.buf = Content(ev.b)
TCopy == /\ Is("idcopy")
         /\ IF ev.flag /\ copy # <<>> THEN CopyCopy ELSE MakeCopy
         /\ ev.buf = copy' /\ ev.magic = copy'[1]
TScribble == Is("idscribble") /\ Scribble([i \in 1..Len(buf) |-> Xor(buf[i], ev.n)])
(* an id shares its bytes with the buffer it was made of; a copy does not *)
TRead == /\ Is("idread") /\ UNCHANGED idvars
         /\ IF ev.flag THEN ev.buf = copy /\ ev.magic = copy[1]
            ELSE TRUE
Spec == TInit /\ [][TBegin \/ TNew \/ TCopy \/ TScribble \/ TRead]_tvars
=============================================================================
