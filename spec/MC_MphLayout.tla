---------------------------- MODULE MC_MphLayout ----------------------------
(* Published vectors of the hash; and for every list of distinct keys over a    *)
(* small family, of each kind and with several sizes of the first level: the     *)
(* table made of it finds each key and, verified by key, no other; its bytes      *)
(* read back as it, whatever follows, and no beginning of them does.  Each is     *)
(* printed.                                                                        *)
EXTENDS MphLayout, TLC, Json
CONSTANT MaxKeys
ASSUME Murmur3(<<0, 0>>, <<>>) = <<0, 0>>
ASSUME Murmur3(<<0, 1>>, <<>>) = <<20814, 10423>>
ASSUME Murmur3(<<65535, 65535>>, <<>>) = <<33265, 28473>>
ASSUME Murmur3(<<38727, 45708>>, <<116, 101, 115, 116>>) = <<28747, 33244>>
ASSUME Murmur3(<<38727, 45708>>, <<97, 97, 97, 97>>) = <<23191, 32906>>
ASSUME Murmur3(<<38727, 45708>>, <<72, 101, 108, 108, 111, 44, 32, 119, 111, 114, 108, 100, 33>>) = <<9352, 19642>>
S == {<<1>>, <<0>>, <<1, 2, 3, 4, 5>>}
KeySet == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in {<<1>>, <<0>>}}
Distinct(f) == \A i, j \in DOMAIN f : i # j => f[i] # f[j]
VARIABLES ks, bykey, n0, seed, done
Seeds == {<<0, 0>>, <<0, 32>>, <<40000, 40000>>}
Init == /\ ks \in UNION {{f \in [1..n -> KeySet] : Distinct(f)} : n \in 0..MaxKeys}
        /\ n0 \in {1, 4} /\ bykey \in BOOLEAN
        /\ IF bykey THEN seed = Zero ELSE seed \in Seeds
        /\ done = FALSE
(* judged in a step, so that all workers share in it *)
Next == ~done /\ done' = TRUE /\ UNCHANGED <<ks, bykey, n0, seed>>
Spec == Init /\ [][Next]_<<ks, bykey, n0, seed, done>>
T == Make([i \in 1..Len(ks) |-> ks[i]], bykey, n0, seed)
Tails == {<<>>, <<0>>, <<255, 255, 1>>}
Right == ~done \/
         LET t == T
             b == EncTable(t)
         IN /\ \A i \in 1..Len(ks) : Find(t, ks[i]) = <<TRUE, i - 1>>
            /\ bykey => \A k \in KeySet : (\A i \in 1..Len(ks) : ks[i] # k) => ~Find(t, k)[1]
            /\ \A x \in Tails : DecTable(b \o x) = <<TRUE, Len(b), t>>
            /\ \A i \in 0..(Len(b) - 1) : ~DecTable(SubSeq(b, 1, i))[1]
            /\ PrintT(<<"VF_EMIT", ToJson(<<bykey, ks, b>>)>>)
=============================================================================
