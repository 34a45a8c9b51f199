------------------------------ MODULE MC_Reading ------------------------------
(* The lenient readers against the strict decoders on every short string over an *)
(* alphabet of bytes that steer them; each string is printed as a script.         *)
EXTENDS Reading, TrieNodes, TLC, Json
CONSTANTS Alphabet, MaxLen, Starts
VARIABLES b, left
Words1 == <<0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0>>     \* one word and its mask
(* beginnings: none, an array, a list, a record with a key, a scheme, nodes, tables *)
Beginnings == {<<>>, <<65, 2, 4>>, <<17, 1, 4>>, <<96, 1, 1>>, <<224>>, <<66, 0, 2, 4>>, <<82, 2>>,
               <<118, 1, 1, 7>>, <<1, 0, 0, 0, 1, 1>>, <<1, 0, 0, 0, 1, 1, 1, 65, 0, 0>>,
               <<1, 0, 0, 0, 2, 1, 1, 65, 0, 0, 0, 0, 1, 1>>,
               <<0>> \o Words1 \o Words1 \o <<0, 0, 0, 7, 0, 0, 0>>, <<1>> \o Words1 \o Words1 \o <<0, 0, 0>>}
Init == b \in Starts /\ left = MaxLen
Next == left > 0 /\ left' = left - 1 /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_<<b, left>>

Kinds == {"uv", "sv", "vc", "sval", "key", "val", "rec", "sch", "trie", "mph"}
Strict(k, s) == CASE k \in {"vc", "sval"} -> DecVarchar(s)
                  [] k = "key" -> DecKey(s)
                  [] k = "val" -> DecVal(s)
                  [] k = "rec" -> DecRec(s)
                  [] k = "sch" -> DecScheme(s)
                  [] k = "mph" -> MP!DecTable(s)
                  [] OTHER -> Fail
Norm(k, item) == CASE k = "val" -> NormVal(item)
                   [] k = "rec" -> <<item[1], NormVal(item[2]), NormVal(item[3]), item[4], item[5]>>
                   [] OTHER -> item
(* where the strict decoder accepts, both give the same *)
Agree == \A k \in Kinds :
           LET d == Strict(k, b)
               r == Read(k, b)
           IN d[1] => /\ r[1] /\ r[2] = d[2]
                      /\ Readable(k, r[3]) /\ Norm(k, r[3]) = Norm(k, d[3])
AgreeTrie == LET d == DecTrie(b)
                 r == Read("trie", b)
             IN d[1] => /\ r[1] /\ r[2] = d[2]
                        /\ {<<x[1], NormVal(x[2])>> : x \in Range(r[3])} \ {<<p, NilVal>> : p \in DOMAIN d[3]}
                           = {<<p, NormVal(d[3][p])>> : p \in {q \in DOMAIN d[3] : d[3][q] # NoData}}
                             \ {<<p, NilVal>> : p \in DOMAIN d[3]}
Small == \A k \in Kinds : LET r == Read(k, b) IN r[1] => r[2] <= Len(b)
(* what is read depends on the bytes consumed alone *)
Local == b # <<>> => \A k \in Kinds :
           LET r == Read(k, b)
           IN r[1] => /\ Read(k, SubSeq(b, 1, r[2])) = r
                      /\ \A x \in Alphabet : Read(k, Append(b, x)) = r
(* nothing shorter is accepted *)
Delimited == \A k \in Kinds \ {"rec"} :
               LET r == Read(k, b) IN r[1] => \A n \in 1..(r[2] - 1) : ~Read(k, SubSeq(b, 1, n))[1]
(* what can be read in full has an encoding of its own that reads the same *)
Canonical ==
  /\ LET r == Read("val", b) IN r[1] /\ Clean(r[3]) =>
       LET v == NormVal(r[3]) IN ValFits(v) => Norm("val", Read("val", EncVal(v))[3]) = v
  /\ LET r == Read("rec", b) IN r[1] /\ CleanRec(r[3]) =>
       LET v == NormRec(r[3]) IN RecFits(v) => Norm("rec", Read("rec", EncRec(v))[3]) = v
  /\ LET r == Read("key", b) IN r[1] => Read("key", EncKey(r[3]))[3] = r[3]
  /\ LET r == Read("sch", b) IN r[1] => Read("sch", EncScheme(r[3]))[3] = r[3]
Emit == PrintT(<<"VF_EMIT", ToJson(b)>>)
=============================================================================
