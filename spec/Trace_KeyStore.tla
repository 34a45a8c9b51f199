--------------------------- MODULE Trace_KeyStore ---------------------------
(* Recorded histories of the key store, whose files the driver may damage or  *)
(* put into a state that an interrupted save leaves.                           *)
EXTENDS KeyStore, TraceBase
tvars == <<l, pubf, privf, ids>>
P == <<ev.i, ev.str>>
TInit == l = 1 /\ KSInit
TBegin == Is("begin") /\ pubf' = EmptyF /\ privf' = EmptyF /\ ids' = {}
TSave == /\ Is("save") /\ Save(P, ev.x32, ev.b, ev.c) /\ ev.err = Refuses(P, ev.c)
TLoadPub == /\ Is("loadpub") /\ UNCHANGED ksvars
            /\ IF LoadPub(P) = Err THEN ev.err = TRUE
               ELSE ev.err = FALSE /\ ev.x32 = LoadPub(P)[2] /\ ev.y = TRUE
TLoadPriv == /\ Is("loadpriv") /\ UNCHANGED ksvars
             /\ LET r == LoadPriv(P, ev.c)
                IN IF r = Err THEN ev.err = TRUE
                   ELSE ev.err = FALSE /\ ev.d = r[2] /\ ev.own = TRUE
TExist == /\ Is("exist") /\ UNCHANGED ksvars
          /\ PubAt(P) = FolderF \/ ev.pub = Exists(PubAt(P))
          /\ PrivAt(P) = FolderF \/ ev.priv = Exists(PrivAt(P))
(* The driver changed a file: "changed" tells whether its bytes differ, which   *)
(* is never only in the case of letters, "there" whether there was a file.      *)
THarm == /\ Is("harm")
         /\ IF ~ev.there THEN UNCHANGED ksvars
            ELSE /\ Whole(IF ev.flag THEN PubAt(P) ELSE PrivAt(P))
                 /\ IF ~ev.changed THEN UNCHANGED ksvars
                    ELSE IF ev.flag THEN DamagePub(P) ELSE DamagePriv(P)
TRemove == /\ Is("rm")
           /\ IF Blocked(IF ev.flag THEN PubAt(P) ELSE PrivAt(P)) THEN UNCHANGED ksvars
              ELSE IF ev.flag THEN RemovePub(P) ELSE RemovePriv(P)
(* Something else was put where the files of the place belong.                 *)
TBlock == /\ Is("block")
          /\ CASE ev.kind = "pub" -> BlockPub(P)
               [] ev.kind = "priv" -> BlockPriv(P)
               [] ev.kind = "both" -> BlockBoth(P)
               [] ev.kind = "free" -> Unblock(P)
(* An interrupted save: of each file the state before (-1), the first n       *)
(* characters of the new one, or all of it (-2).                               *)
After(old, new, n) == IF n = -1 THEN old ELSE IF n = -2 THEN new ELSE BadF
TCrash == /\ Is("crash") /\ ~Refuses(P, ev.c) /\ ev.err = FALSE
          /\ privf' = Set(privf, P, After(PrivAt(P), SecretF(ev.b, ev.c), ev.n))
          /\ pubf' = Set(pubf, P, After(PubAt(P), KeyF(ev.x32), ev.m))
          /\ ids' = ids
Spec == TInit /\ [][TBegin \/ TSave \/ TLoadPub \/ TLoadPriv \/ TExist \/ THarm \/ TRemove \/ TBlock \/ TCrash]_tvars
=============================================================================
