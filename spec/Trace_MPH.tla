------------------------------ MODULE Trace_MPH ------------------------------
EXTENDS MphTable, TraceBase
tvars == <<l, keys, built, bykey, memo, bytes, parsed>>
TInit == l = 1 /\ MphInit
TBegin == /\ Is("begin")
          /\ keys' = <<>> /\ built' = FALSE /\ bykey' = FALSE /\ memo' = NoMemo
          /\ bytes' = <<>> /\ parsed' = 0
TBuild == Is("build") /\ Build(ev.x, ev.flag)
(* Known finding: two distinct keys that have the same Murmur3 hash under     *)
(* every seed; the construction tries seeds for ever.                          *)
Colliding == {<<<<120, 86, 52, 18, 254, 202, 173, 11>>>>, <<<<32, 181, 19, 29, 254, 202, 252, 207>>>>}
TKnownHang == /\ IOEnv.VF_KNOWN = "mph-universal-collision"
              /\ l <= Len(Trace) /\ l' = l + 1
              /\ ev.op = "build" /\ ev.out = "hang"
              /\ {ev.x[i] : i \in DOMAIN ev.x} = Colliding
              /\ PrintT(<<"VF_KNOWN", "mph-universal-collision">>)
              /\ UNCHANGED mphvars
TLookup == /\ Is("lookup") /\ ev.s <= parsed
           /\ Answer(ev.bb, <<ev.ok, IF ev.ok THEN ev.r ELSE 0>>)
TEnc == Is("enc") /\ ev.s <= parsed /\ ev.err = FALSE /\ Serialise(ev.b)
(* a table parsed from the bytes of the last serialisation, and others after them *)
TParse == Is("parse") /\ ev.err = FALSE /\ Parse(ev.n)
(* a table of ev.n distinct keys, asked for all of them and for 1000 others, and  *)
(* so the table read back from its bytes                                           *)
TBig == /\ Is("big") /\ ev.err = FALSE /\ ev.used = TRUE
        /\ ev.hits = ev.n /\ ev.hits2 = ev.n /\ ev.others = ev.others2
        /\ ev.flag => ev.others = 0
        /\ UNCHANGED mphvars
Spec == TInit /\ [][TBegin \/ TBuild \/ TKnownHang \/ TLookup \/ TEnc \/ TParse \/ TBig]_tvars
=============================================================================
