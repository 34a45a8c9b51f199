---------------------------- MODULE Trace_Codec ----------------------------
(* Recorded encodings, decodings and readings of real keys, values, records  *)
(* and schemes.  Without "layout" the encoded bytes are free, as long as they *)
(* decode to the item they were made from, whatever follows them; with it    *)
(* they are the ones of Codec.                                                *)
EXTENDS Codec, TraceBase

VARIABLES lay,   \* whether the layout is checked
          cur    \* <<kind, normalised item, its bytes>> last encoded or decoded, or <<>>
tvars == <<l, lay, cur>>

TInit == l = 1 /\ lay = FALSE /\ cur = <<>>
TBegin == /\ Is("begin")
          /\ lay' = ("layout" \in DOMAIN ev /\ ev.layout)
          /\ cur' = <<>>

Encoded(kind, fits, item, bytes) ==
  IF fits THEN /\ ev.err = FALSE
               /\ ev.isenc = TRUE
               /\ lay => ev.b = bytes
               /\ cur' = <<kind, item, ev.b>>
  ELSE ev.err = TRUE /\ cur' = <<>>

(* a decoding of the current bytes and ev.b after them *)
Decoded(kind) == /\ cur # <<>> /\ cur[1] = kind
                 /\ ev.err = FALSE
                 /\ ev.n = Len(cur[3])
                 /\ ev.buf = cur[3]
                 /\ UNCHANGED cur

TKenc == Is("kenc") /\ Encoded("key", KeyFits(ev.bb), ev.bb, IF lay THEN EncKey(ev.bb) ELSE <<>>)
         /\ UNCHANGED lay
TKdec == /\ Is("kdec") /\ Decoded("key") /\ UNCHANGED lay
         /\ ev.key = cur[2] /\ ev.at = cur[2] /\ ev.empty = (cur[2] = <<>>)
         /\ ev.eq /\ ev.c = <<0, 0>> \* with the key that was encoded

TEnc == /\ Is("enc") /\ UNCHANGED lay
        /\ LET n == IF ev.kind = "val" THEN NormVal(ev.x) ELSE NormRec(ev.x)
               fits == IF ev.kind = "val" THEN ValFits(n) ELSE RecFits(n)
               b == IF lay THEN IF ev.kind = "val" THEN EncVal(n) ELSE EncRec(n) ELSE <<>>
           IN Encoded(ev.kind, fits, n, b)
        /\ ~ev.err => ev.magic = ev.b[1]
TDec == Is("dec") /\ Decoded(ev.kind) /\ ev.isdec = TRUE /\ UNCHANGED lay

(* the element of the current item that a path leads to: <<kind, item, 0>>,  *)
(* or <<"none", <<>>, first step that leads nowhere>>                         *)
RECURSIVE Walk(_, _, _, _)
Walk(kind, item, path, n) ==
  IF n > Len(path) THEN <<kind, item, 0>>
  ELSE LET step == path[n][1]
           i == path[n][2] + 1
       IN IF step = 0 /\ kind = "val" /\ item[1] = "a" /\ i <= Len(item[2])
          THEN Walk("val", item[2][i], path, n + 1)
          ELSE IF step = 1 /\ kind = "val" /\ item[1] = "l" /\ i <= Len(item[2])
          THEN Walk("rec", item[2][i], path, n + 1)
          ELSE IF step \in {2, 3} /\ kind = "rec" /\ item[step] # NilVal
          THEN Walk("val", item[step], path, n + 1)
          ELSE <<"none", <<>>, n>>

TAt == /\ Is("at") /\ UNCHANGED <<lay, cur>>
       /\ cur # <<>>
       /\ LET w == Walk(cur[1], cur[2], ev.ll, 1)
              x == w[2]
          IN /\ ev.fail = w[3]
             /\ w[1] = "val" =>
                  /\ ev.what = "v"
                  /\ ev.nil = (x = NilVal)
                  /\ x # NilVal => ev.prim = (x[1] = "p") /\ ev.arr = (x[1] = "a")
                                   /\ ev.list = (x[1] = "l")
                  /\ ev.size = (IF x[1] \in {"a", "l"} THEN Len(x[2]) ELSE 0)
                  /\ ev.content = (IF x[1] = "p" THEN x[2] ELSE <<>>)
             /\ w[1] = "rec" =>
                  /\ ev.what = "r"
                  /\ ev.key = x[1] /\ ev.t = x[4] /\ ev.sig = x[5]
                  /\ ev.hasv = (x[2] # NilVal) /\ ev.hass = (x[3] # NilVal)

TRead == Is("read") /\ UNCHANGED <<lay, cur>> /\ cur # <<>> /\ ev.item = cur[2]

(* given bytes: those in the layout denote exactly one item *)
TLdec == /\ Is("ldec") /\ UNCHANGED <<lay, cur>>
         /\ LET d == CASE ev.kind = "key" -> DecKey(ev.b)
                       [] ev.kind = "val" -> DecVal(ev.b)
                       [] ev.kind = "rec" -> DecRec(ev.b)
                e == CASE ev.kind = "key" -> EncKey(d[3])
                       [] ev.kind = "val" -> EncVal(d[3])
                       [] ev.kind = "rec" -> EncRec(d[3])
            IN d[1] /\ e = SubSeq(ev.b, 1, d[2])
               => ev.err = FALSE /\ ev.n = d[2] /\ ev.item = d[3]

Parts(s) == /\ ev.hd = s[1][1] /\ ev.d = s[1][2]
            /\ ev.ht = s[2][1] /\ ev.t = s[2][2]
            /\ ev.hb = s[3][1] /\ ev.bk = s[3][2]
            /\ ev.names = TRUE
(* scripts only decode schemes in the layout *)
TSdec == /\ Is("sdec") /\ UNCHANGED lay
         /\ LET d == DecScheme(ev.b)
            IN /\ d[1] /\ EncScheme(d[3]) = SubSeq(ev.b, 1, d[2])
               /\ ev.err = FALSE /\ ev.n = d[2] /\ Parts(d[3])
               /\ cur' = <<"sch", d[3], SubSeq(ev.b, 1, d[2])>>
TScopy == /\ Is("scopy") /\ UNCHANGED <<lay, cur>>
          /\ cur # <<>> /\ cur[1] = "sch"
          /\ ev.copyerr = FALSE
          /\ Parts(cur[2])
          /\ IF Len(cur[3]) <= MaxScheme
             THEN ev.err = FALSE /\ ev.b = cur[3] /\ ev.magic = cur[3][1]
             ELSE ev.err = TRUE

Spec == TInit /\ [][TBegin \/ TKenc \/ TKdec \/ TEnc \/ TDec \/ TAt \/ TRead \/ TLdec
                    \/ TSdec \/ TScopy]_tvars
=============================================================================
