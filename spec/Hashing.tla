------------------------------ MODULE Hashing ------------------------------
(* Hash values as a partial function of content: once the hash of a content  *)
(* is seen, every equal object - in whatever form it is held - has the same, *)
(* and for kinds that feed their whole content to the hash function no other *)
(* content has it under a collision-free hash function.                       *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES tab,    \* <<kind, content>> -> hash under a collision-free function
          mtab    \* <<kind, content, seed>> -> murmur hash

hvars == <<tab, mtab>>
NoHash == [x \in {} |-> <<>>]
HashInit == tab = NoHash /\ mtab = NoHash

Extend(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]

(* kinds whose hash depends on their whole content, in order *)
Faithful(kind) == kind \notin {"slice", "slicen"}

(* two objects: equal ones have one type and one content and share every     *)
(* hash value; of the faithful kinds only they do under a collision-free      *)
(* function.  nil and empty slices have the same content; they need not be    *)
(* equal.                                                                      *)
(* composite slices are told apart by what occurs in them an odd number of    *)
(* times (nil is <<>>)                                                         *)
Odd(x) == {e \in {x[i] : i \in 1..Len(x)} : Cardinality({i \in 1..Len(x) : x[i] = e}) % 2 = 1}
Differ(kind, x, y) == IF Faithful(kind) THEN x # y ELSE Odd(x) # Odd(y)

Related(kind, nil, x, kind2, nil2, y, eq, sameHash, sameMurmur) ==
  /\ eq => kind = kind2 /\ x = y
  /\ kind = kind2 /\ x = y /\ nil = nil2 => eq
  /\ eq => sameHash /\ sameMurmur
  /\ kind = kind2 /\ Differ(kind, x, y) => ~sameHash

Hash(kind, content, seed, h, mh) ==
  LET x == <<kind, content>>
      y == <<kind, content, seed>>
  IN /\ IF x \in DOMAIN tab THEN tab[x] = h
        ELSE \A z \in DOMAIN tab : z[1] = kind /\ Differ(kind, z[2], content) => tab[z] # h
     /\ y \in DOMAIN mtab => mtab[y] = mh
     /\ tab' = Extend(tab, x, h)
     /\ mtab' = Extend(mtab, y, mh)
=============================================================================
