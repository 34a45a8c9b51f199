-------------------------------- MODULE AVL --------------------------------
(* Height-balanced search tree with balance factors, transcribed from the    *)
(* algorithm of src/collection/avl.go: insertion and removal with single and *)
(* double rotations, removal of an inner node through its in-order           *)
(* predecessor, and in-order traversal with an explicit path.                *)
(* A node is <<key, value, balance, left, right>>, the empty tree is <<>>.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

E == <<>>
Key(t) == t[1]
Val(t) == t[2]
Bal(t) == t[3]
Kid(t, d) == t[4 + d]
WithKid(t, d, c) == [t EXCEPT ![4 + d] = c]
WithBal(t, b) == [t EXCEPT ![3] = b]
Opp(d) == 1 - d

RECURSIVE Keys(_), Height(_), Lookup(_, _), InOrder(_)
Keys(t) == IF t = E THEN {} ELSE {Key(t)} \cup Keys(Kid(t, 0)) \cup Keys(Kid(t, 1))
Max2(a, b) == IF a > b THEN a ELSE b
Height(t) == IF t = E THEN 0 ELSE 1 + Max2(Height(Kid(t, 0)), Height(Kid(t, 1)))
Lookup(t, k) == IF t = E THEN -1 ELSE IF Key(t) = k THEN Val(t)
                ELSE Lookup(Kid(t, IF Key(t) < k THEN 1 ELSE 0), k)
InOrder(t) == IF t = E THEN <<>>
              ELSE InOrder(Kid(t, 0)) \o <<Key(t)>> \o InOrder(Kid(t, 1))

Single(t, d) == LET s == Kid(t, Opp(d)) IN
                WithKid(s, d, WithKid(t, Opp(d), Kid(s, d)))
Double(t, d) == LET c == Kid(t, Opp(d))
                    s == Kid(c, d)
                    c2 == WithKid(c, d, Kid(s, Opp(d)))
                    s2 == WithKid(s, Opp(d), c2)
                    t2 == WithKid(t, Opp(d), s2)
                IN Single(t2, d)

(* balance factors after a double rotation *)
Adjust(t, d, b) ==
  LET n == Kid(t, d)
      nn == Kid(n, Opp(d))
      tb == IF Bal(nn) = b THEN -b ELSE 0
      nb == IF Bal(nn) = 0 \/ Bal(nn) = b THEN 0 ELSE b
      n2 == WithBal(WithKid(n, Opp(d), WithBal(nn, 0)), nb)
  IN WithBal(WithKid(t, d, n2), tb)

PutBalance(t, d) ==
  LET n == Kid(t, d)
      b == 2 * d - 1
  IN IF Bal(n) = b
     THEN Single(WithBal(WithKid(t, d, WithBal(n, 0)), 0), Opp(d))
     ELSE Double(Adjust(t, d, b), Opp(d))

(* <<tree, old value or -1, balanced>> *)
RECURSIVE PutR(_, _, _)
PutR(t, k, v) ==
  IF t = E THEN <<<<k, v, 0, E, E>>, -1, FALSE>>
  ELSE IF Key(t) = k THEN <<[t EXCEPT ![2] = v], Val(t), TRUE>>
  ELSE LET d == IF Key(t) < k THEN 1 ELSE 0
           r == PutR(Kid(t, d), k, v)
           t1 == WithKid(t, d, r[1])
       IN IF r[3] THEN <<t1, r[2], TRUE>>
          ELSE LET b == Bal(t1) + 2 * d - 1
                   t2 == WithBal(t1, b)
               IN CASE b = 0 -> <<t2, r[2], TRUE>>
                    [] b \in {1, -1} -> <<t2, r[2], FALSE>>
                    [] OTHER -> <<PutBalance(t2, d), r[2], TRUE>>

RemoveBalance(t, d) ==
  LET n == Kid(t, Opp(d))
      b == 2 * d - 1
  IN CASE Bal(n) = -b ->
            <<Single(WithBal(WithKid(t, Opp(d), WithBal(n, 0)), 0), d), FALSE>>
       [] Bal(n) = b -> <<Double(Adjust(t, Opp(d), -b), d), FALSE>>
       [] OTHER ->
            <<Single(WithBal(WithKid(t, Opp(d), WithBal(n, b)), -b), d), TRUE>>

RECURSIVE Rightmost(_)
Rightmost(t) == IF Kid(t, 1) = E THEN t ELSE Rightmost(Kid(t, 1))

RECURSIVE RemoveR(_, _)
RemoveR(t, k0) ==
  IF t = E THEN <<E, -1, TRUE>>
  ELSE IF Key(t) = k0 /\ Kid(t, 0) = E THEN <<Kid(t, 1), Val(t), FALSE>>
  ELSE IF Key(t) = k0 /\ Kid(t, 1) = E THEN <<Kid(t, 0), Val(t), FALSE>>
  ELSE LET hit == Key(t) = k0
           heir == Rightmost(Kid(t, 0))
           t0 == IF hit THEN [t EXCEPT ![1] = Key(heir), ![2] = Val(heir)] ELSE t
           k == IF hit THEN Key(heir) ELSE k0
           d == IF Key(t0) < k THEN 1 ELSE 0
           r == RemoveR(Kid(t0, d), k)
           found == IF hit THEN Val(t) ELSE r[2]
           t1 == WithKid(t0, d, r[1])
       IN IF r[3] THEN <<t1, found, TRUE>>
          ELSE LET b == Bal(t1) + 1 - 2 * d
                   t2 == WithBal(t1, b)
               IN CASE b \in {1, -1} -> <<t2, found, TRUE>>
                    [] b = 0 -> <<t2, found, FALSE>>
                    [] OTHER -> LET q == RemoveBalance(t2, d)
                                IN <<q[1], found, q[2]>>

-----------------------------------------------------------------------------
RECURSIVE SearchTree(_), Balanced(_)
SearchTree(t) == t = E \/ /\ \A x \in Keys(Kid(t, 0)) : x < Key(t)
                          /\ \A x \in Keys(Kid(t, 1)) : x > Key(t)
                          /\ SearchTree(Kid(t, 0)) /\ SearchTree(Kid(t, 1))
Balanced(t) == t = E \/ /\ Bal(t) = Height(Kid(t, 1)) - Height(Kid(t, 0))
                        /\ Bal(t) \in {-1, 0, 1}
                        /\ Balanced(Kid(t, 0)) /\ Balanced(Kid(t, 1))

(* The traversal of NewAVLIterator/advance: <<current node, path>>; the       *)
(* current node is the next to yield, E when done.                           *)
RECURSIVE Seek(_, _, _)
Seek(t, s, path) ==
  IF t = E THEN path
  ELSE IF s # -1 /\ Key(t) < s THEN Seek(Kid(t, 1), s, path)
  ELSE Seek(Kid(t, 0), s, Append(path, t))

RECURSIVE Drive(_, _, _)
Drive(path, end, out) ==
  IF path = <<>> THEN out
  ELSE LET n == path[Len(path)]
           p0 == SubSeq(path, 1, Len(path) - 1)
       IN IF end # -1 /\ Key(n) >= end THEN out      \* all that follow are larger
          ELSE Drive(Seek(Kid(n, 1), -1, p0), end, Append(out, Key(n)))

Traverse(t, s, end) == Drive(Seek(t, s, <<>>), end, <<>>)
=============================================================================
