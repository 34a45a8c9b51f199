----------------------------- MODULE MC_Hashing -----------------------------
(* Over a small content space and two hash values: whatever is accepted as   *)
(* hashing is functional and, for faithful kinds, injective.                  *)
EXTENDS Hashing
Contents == {<<>>, <<0>>, <<0, 1>>}
Kinds == {"key", "slice"}
Init == HashInit
Next == \E k \in Kinds : \E c \in Contents : \E h \in 1..3 : Hash(k, c, 1, h, h)
Spec == Init /\ [][Next]_hvars
Injective == \A x, y \in DOMAIN tab :
               (x # y /\ x[1] = y[1] /\ Faithful(x[1])) => tab[x] # tab[y]
(* what is required of two objects fits what is required of their hashes:    *)
(* it holds for any two contents hashed, with equality that of contents       *)
Compatible == \A x, y \in DOMAIN tab :
                Related(x[1], FALSE, x[2], y[1], FALSE, y[2], x = y, tab[x] = tab[y],
                        x = y) 
Stable == [][\A x \in DOMAIN tab : tab'[x] = tab[x]]_hvars
=============================================================================
