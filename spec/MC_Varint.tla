----------------------------- MODULE MC_Varint -----------------------------
(* Round trip, self-delimitation and length of the 64-bit variable-length    *)
(* encodings, over numbers made of boundary limbs; each is printed.           *)
EXTENDS Varint, TLC, Json
CONSTANT Limbs
VARIABLE x
Init == x \in [1..4 -> Limbs]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
X == [i \in 1..4 |-> x[i]]
Tails == {<<>>, <<0>>, <<255, 1>>}
RoundTrip == \A t \in Tails : /\ DecU64(EncU64(X) \o t) = X /\ LastByte(EncU64(X) \o t, 1) = Len(EncU64(X))
                              /\ DecI64(EncI64(X) \o t) = X /\ LastByte(EncI64(X) \o t, 1) = Len(EncI64(X))
Short == Len(EncU64(X)) \in 1..10 /\ Len(EncI64(X)) \in 1..10
NoPrefix == \A n \in 0..(Len(EncU64(X)) - 1) : LastByte(SubSeq(EncU64(X), 1, n), 1) = 0
Small == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] < 128 => EncU64(X) = <<x[4]>>
Emit == PrintT(<<"VF_EMIT", ToJson(X)>>)
=============================================================================
