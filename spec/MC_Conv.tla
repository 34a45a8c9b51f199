------------------------------ MODULE MC_Conv ------------------------------
(* Conversion is a bijection of fixed width and keeps the order.              *)
EXTENDS Conversions, TLC, Json
CONSTANT Limbs
VARIABLE pair
Init == pair \in [1..2 -> Limbs] \X [1..2 -> Limbs]
Next == UNCHANGED pair
Spec == Init /\ [][Next]_pair
A == <<pair[1][1], pair[1][2]>>
B == <<pair[2][1], pair[2][2]>>
RoundTrip == Unbytes(BigEndian(A)) = A /\ Len(BigEndian(A)) = 4
Order == LexInt(BigEndian(A), BigEndian(B)) = LexInt(A, B)
Emit == PrintT(<<"VF_EMIT", ToJson(A)>>)
=============================================================================
