------------------------------ MODULE MC_Robust ------------------------------
(* The reference decoders on every short string over an alphabet of bytes     *)
(* that steer them: they always give an answer, never consume more than there *)
(* is, decide by the bytes they consume alone, and so refuse every proper     *)
(* prefix of what they accept.  Each string is printed as a script.           *)
EXTENDS TrieNodes, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x)
Spec == Init /\ [][Next]_b

Decs(s) == <<DecKey(s), DecVal(s), DecRec(s), DecScheme(s), DecTrie(s), DecVarchar(s), DecUvarint(s)>>
Small == \A i \in 1..7 : LET d == Decs(b)[i] IN d[1] => d[2] <= Len(b)
Local == \A i \in 1..7 :
           LET d == Decs(b)[i]
           IN d[1] /\ b # <<>> =>
              /\ \A x \in Alphabet : Decs(Append(b, x))[i] = d
              /\ Decs(SubSeq(b, 1, d[2]))[i] = d
(* an accepted prefix consumes the same bytes whatever follows, so a proper  *)
(* prefix of what is needed is not accepted                                   *)
Delimited == \A i \in 1..7 : \A n \in 1..Len(b) :
               LET d == Decs(b)[i]
               IN d[1] /\ n < d[2] => ~Decs(SubSeq(b, 1, n))[i][1]
Emit == PrintT(<<"VF_EMIT", ToJson(b)>>)
=============================================================================
