------------------------------ MODULE MC_Small ------------------------------
(* The least and the greatest of two numbers are the two, in order, for every   *)
(* pair of boundary numbers of every type; each is printed.                      *)
EXTENDS Small, TLC, Json, FiniteSets
CONSTANT Limbs
Kinds == {"int", "uint", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"}
Width(k) == CASE k \in {"int8", "uint8", "int16", "uint16"} -> 1 [] k \in {"int32", "uint32"} -> 2 [] OTHER -> 4
Small8 == {0, 1, 127, 128, 129, 255}
Numbers(k) == IF k \in {"int8", "uint8"} THEN {<<x>> : x \in Small8}
              ELSE {[i \in 1..Width(k) |-> IF i = 1 THEN a ELSE IF i = Width(k) THEN b ELSE c] :
                    a \in Limbs, b \in Limbs, c \in {0, 65535}}
VARIABLE t
Init == \E k \in Kinds : \E x, y \in Numbers(k) : t = <<k, x, y>>
Next == UNCHANGED t
Spec == Init /\ [][Next]_t
Lo == Least(t[1], t[2], t[3])
Hi == Greatest(t[1], t[2], t[3])
Ordered == /\ {Lo, Hi} = {t[2], t[3]}
           /\ AtMost(Shifted(t[1], Lo), Shifted(t[1], Hi))
           /\ Lo = Least(t[1], t[3], t[2]) /\ Hi = Greatest(t[1], t[3], t[2])
ASSUME Nils \cap NotNils = {} /\ Cardinality(Nils \cup NotNils) = 34
Emit == PrintT(<<"VF_EMIT", ToJson(t)>>)
=============================================================================
