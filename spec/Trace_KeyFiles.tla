--------------------------- MODULE Trace_KeyFiles ---------------------------
(* Recorded saves with the files they left, loads of them and of files that    *)
(* were written in their format, or nearly so.                                  *)
EXTENDS KeyFiles, TraceBase
tvars == <<l, files, nonces>>
P == <<ev.i, ev.str>>
TInit == l = 1 /\ KFInit
TBegin == Is("begin") /\ files' = NoFiles /\ UNCHANGED nonces
TSave == /\ Is("fsave")
         /\ IF ~Usable(ev.c) THEN ev.err = TRUE /\ UNCHANGED kfvars
            ELSE /\ ev.err = FALSE /\ ev.pubpath = PubPath(P) /\ ev.privpath = PrivPath(P)
                 /\ ev.closed = TRUE /\ ev.files = 2
                 /\ Save(P, ev.x32, ev.b, ev.c, ev.pub, ev.priv)
TMany == /\ Is("fmany") /\ ev.err = FALSE /\ Len(ev.all) = ev.n
         /\ SaveMany(P, ev.x32, ev.b, ev.c, ev.pub, ev.all)
TPut == Is("fput") /\ ev.x = Class[ev.i] /\ ev.y = PrivName[ev.i] /\ Put(P, ev.b, ev.c)
TLoadPub == /\ Is("loadpub") /\ UNCHANGED kfvars
            /\ LET r == PubOf(At(P)[1])
               IN IF r = Bad THEN ev.err = TRUE ELSE ev.err = FALSE /\ ev.x32 = r[2] /\ ev.y = TRUE
TLoadPriv == /\ Is("loadpriv") /\ UNCHANGED kfvars
             /\ LET r == PrivOf(At(P)[2], ev.c)
                IN IF r = Bad THEN ev.err = TRUE ELSE ev.err = FALSE /\ ev.d = r[2] /\ ev.own = TRUE
Spec == TInit /\ [][TBegin \/ TSave \/ TMany \/ TPut \/ TLoadPub \/ TLoadPriv]_tvars
=============================================================================
