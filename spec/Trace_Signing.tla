---------------------------- MODULE Trace_Signing ----------------------------
(* Recorded histories of key generation, reloading, signing and verification. *)
EXTENDS TraceBase
VARIABLES keys,     \* slot -> <<d, x>>, 32 bytes each
          sigs      \* signature slot -> <<key slot, digest>>
tvars == <<l, keys, sigs>>
Empty == [x \in {} |-> <<>>]
Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
TInit == l = 1 /\ keys = Empty /\ sigs = Empty
TBegin == Is("begin") /\ keys' = Empty /\ sigs' = Empty
TGen == /\ Is("gen")
        /\ Len(ev.d) = 32 /\ Len(ev.x) = 32
        /\ \A s \in DOMAIN keys : keys[s][2] # ev.x
        /\ keys' = Put(keys, ev.s, <<ev.d, ev.x>>)
        /\ sigs' = [g \in {h \in DOMAIN sigs : sigs[h][1] # ev.s} |-> sigs[g]]
(* private key from its bytes, public key from its X *)
TReload == Is("reload") /\ UNCHANGED <<keys, sigs>>
           /\ ev.d = keys[ev.s][1] /\ ev.x = keys[ev.s][2] /\ ev.px = keys[ev.s][2]
           /\ ev.pub = TRUE
TSign == /\ Is("sign") /\ ev.err = FALSE /\ UNCHANGED keys
         /\ ev.s \in DOMAIN keys
         /\ sigs' = Put(sigs, ev.n, <<ev.s, ev.b>>)
(* "none": unaltered; any other alteration makes it another signature *)
TVerify == /\ Is("verify") /\ UNCHANGED <<keys, sigs>>
           /\ ev.n \in DOMAIN sigs /\ ev.s \in DOMAIN keys
           /\ ev.v = (ev.kind = "none" /\ sigs[ev.n] = <<ev.s, ev.b>>)
(* a key made of bytes that are no key's X *)
TStray == /\ Is("stray") /\ UNCHANGED <<keys, sigs>>
          /\ \A s \in DOMAIN keys : keys[s][2] # ev.c
          /\ ev.v = FALSE
Spec == TInit /\ [][TBegin \/ TGen \/ TReload \/ TSign \/ TVerify \/ TStray]_tvars
=============================================================================
