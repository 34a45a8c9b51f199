------------------------------ MODULE MC_Codec ------------------------------
(* The layout of Codec is self-delimiting: for every item of a bounded       *)
(* family, decoding its encoding followed by any of several tails gives the  *)
(* item and its exact length; every non-empty proper prefix is refused; the  *)
(* length formulas agree with the encodings.  Each item is printed as a       *)
(* script.                                                                    *)
EXTENDS Codec, FiniteSets, TLC, Json

Tails == {<<>>, <<0>>, <<1, 1>>, <<255, 255, 255>>, <<64, 1>>}
SubKs == {<<0>>, <<1>>, <<255, 2>>}
KeySet == {<<>>} \cup {<<a>> : a \in SubKs} \cup {<<a, b>> : a, b \in SubKs}
          \cup {<<<<1>>, <<1>>, <<0>>>>}
Prims == {NilVal, <<"p", <<0>>>>, <<"p", <<1, 255>>>>, <<"p", <<64, 1, 1, 0>>>>}
Times == {<<>>, <<0, 0, 0, 0, 0, 0, 0, 1>>, <<255, 0, 0, 0, 0, 0, 0, 254>>}
Sig == [i \in 1..64 |-> (i * 37) % 256]
Sigs(t) == IF t = <<>> THEN {<<>>} ELSE {<<>>, Sig}
Recs0 == {<<k, v, s, t, g>> : k \in {<<>>, <<<<1>>>>, <<<<255, 2>>, <<0>>>>},
                              v \in {NilVal, <<"p", <<1, 255>>>>},
                              s \in {NilVal, <<"p", <<0>>>>},
                              t \in {<<>>, <<255, 0, 0, 0, 0, 0, 0, 254>>}, g \in {<<>>, Sig}}
Recs1 == {r \in Recs0 : r[4] # <<>> \/ r[5] = <<>>}
Seqs2(S) == {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
Arr1 == {<<"a", x>> : x \in Seqs2(Prims)}
RecsS == {r \in Recs1 : r[3] = NilVal /\ r[5] = <<>>}
Lst1 == {<<"l", x>> : x \in Seqs2(RecsS)}
Vals1 == Prims \cup Arr1 \cup Lst1
Arr2 == {<<"a", x>> : x \in {<<a>> : a \in Arr1 \cup Lst1}
                        \cup {<<a, p>> : a \in Arr1, p \in Prims} \cup {<<p, a>> : a \in Arr1, p \in Prims}}
Vals == Vals1 \cup Arr2
Recs == Recs1 \cup {<<<<<<1>>>>, v, NilVal, <<>>, <<>>>> : v \in Vals1}
Schemes == {<<d, t, b>> : d, t \in {Absent, <<TRUE, <<>>>>, <<TRUE, <<7>>>>, <<TRUE, <<128, 1>>>>},
                          b \in {Absent, <<TRUE, <<>>>>, <<TRUE, <<<<>>>>>>, <<TRUE, <<<<1>>, <<2, 3>>>>>>}}

VARIABLES kind, item
vars == <<kind, item>>
Init == \/ kind = "key" /\ item \in KeySet
        \/ kind = "val" /\ item \in Vals
        \/ kind = "rec" /\ item \in Recs
        \/ kind = "sch" /\ item \in Schemes
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Enc == CASE kind = "key" -> EncKey(item) [] kind = "val" -> EncVal(item)
         [] kind = "rec" -> EncRec(item) [] kind = "sch" -> EncScheme(item)
Dec(b) == CASE kind = "key" -> DecKey(b) [] kind = "val" -> DecVal(b)
            [] kind = "rec" -> DecRec(b) [] kind = "sch" -> DecScheme(b)

RoundTrip == \A t \in Tails : Dec(Enc \o t) = <<TRUE, Len(Enc), item>>
PrefixRefused == \A n \in 1..(Len(Enc) - 1) : ~Dec(SubSeq(Enc, 1, n))[1]
Lengths == /\ kind = "key" => Len(Enc) = KeyLen(item)
           /\ kind = "val" => Len(Enc) = ValLen(item)
           /\ kind = "rec" => Len(Enc) = RecLen(item)
Normal == /\ kind = "val" => NormVal(item) = item
          /\ kind = "rec" => NormRec(item) = item
Emit == PrintT(<<"VF_EMIT", ToJson(<<kind, item>>)>>)
=============================================================================
