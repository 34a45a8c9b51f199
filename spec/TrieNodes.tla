----------------------------- MODULE TrieNodes -----------------------------
(* The tree of nodes of src/util/trie_util.go: creation and pruning of nodes, *)
(* traversal with a stack of sibling iterators, and the encoding.             *)
(* A tree is a function from node paths (always with the root <<>>, closed    *)
(* under prefixes) to data; NoData stands for Go's nil.                        *)
EXTENDS Codec, Lex, FiniteSets

NoData == <<>>
Root == [p \in {<<>>} |-> NoData]
Child(p, s) == Append(p, s)
Kids(n, p) == {x \in DOMAIN n : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : LexSeq(a, b) < 0)
Pre(k) == {SubSeq(k, 1, i) : i \in 0..Len(k)}

RECURSIVE Walk(_, _, _)
Walk(n, k, i) == IF SubSeq(k, 1, i) \notin DOMAIN n THEN NoData
                 ELSE IF i = Len(k) THEN n[k] ELSE Walk(n, k, i + 1)
GetR(n, k) == Walk(n, k, 0)

RECURSIVE Prune(_, _)
Prune(n, p) == IF p = <<>> \/ Kids(n, p) # {} \/ n[p] # NoData THEN n
               ELSE Prune([x \in DOMAIN n \ {p} |-> n[x]], SubSeq(p, 1, Len(p) - 1))
(* <<tree, previous data>> *)
SetR(n, k, d) ==
  LET n1 == [x \in DOMAIN n \cup Pre(k) |-> IF x \in DOMAIN n THEN n[x] ELSE NoData]
      n2 == [n1 EXCEPT ![k] = d]
  IN <<IF d = NoData THEN Prune(n2, k) ELSE n2, n1[k]>>

-----------------------------------------------------------------------------
(* <<node to yield first or None, stack of the siblings left at each level>> *)
None == <<<<-1>>>>
RECURSIVE Drive(_, _, _)
Drive(n, stack, out) ==
  IF stack = <<>> THEN out
  ELSE LET top == stack[Len(stack)]
           below == SubSeq(stack, 1, Len(stack) - 1)
       IN IF top = <<>> THEN Drive(n, below, out)
          ELSE Drive(n, below \o <<Tail(top)>> \o
                        (IF Kids(n, Head(top)) = {} THEN <<>> ELSE <<Sorted(Kids(n, Head(top)))>>),
                     Append(out, Head(top)))
From0(n, first, stack) ==
  IF first = None THEN Drive(n, stack, <<>>)
  ELSE Drive(n, Append(stack, Sorted(Kids(n, first))), <<first>>)

KeySeq(n, k) == IF k \notin DOMAIN n THEN <<>> ELSE From0(n, k, <<>>)

(* following the start key, the larger siblings on the way are kept *)
RECURSIVE Seed(_, _, _, _)
Seed(n, s, i, stack) ==
  IF i = Len(s) THEN <<s, stack>>
  ELSE LET p == SubSeq(s, 1, i)
           c == SubSeq(s, 1, i + 1)
           larger == Sorted({x \in Kids(n, p) : LexSeq(x, c) > 0})
       IN IF c \in DOMAIN n THEN Seed(n, s, i + 1, Append(stack, larger))
          ELSE <<None, Append(stack, larger)>>
RECURSIVE Cut(_, _, _)
Cut(seq, e, i) == IF i > Len(seq) \/ LexSeq(seq[i], e) >= 0 THEN SubSeq(seq, 1, i - 1) ELSE Cut(seq, e, i + 1)
RangeSeq(n, hasS, s, hasE, e) ==
  LET x == IF hasS THEN Seed(n, s, 0, <<>>) ELSE <<<<>>, <<>>>>
      all == From0(n, x[1], x[2])
  IN IF hasE THEN Cut(all, e, 1) ELSE all

-----------------------------------------------------------------------------
(* node: 1, own sub key, offset of the parent, value, number of children; its *)
(* children follow, then a 0                                                   *)
EncNode(n, p, parentAt) ==
  Uvarint(1) \o Varchar(IF p = <<>> THEN <<>> ELSE p[Len(p)]) \o Uvarint(parentAt)
  \o (IF n[p] = NoData THEN <<0>> ELSE EncVal(n[p])) \o Uvarint(Cardinality(Kids(n, p)))
RECURSIVE EncSub(_, _, _, _), EncKids(_, _, _, _)
EncKids(n, kids, parentAt, buf) ==
  IF kids = <<>> THEN Append(buf, 0)
  ELSE EncKids(n, Tail(kids), parentAt, EncSub(n, Head(kids), parentAt, buf))
EncSub(n, p, parentAt, buf) ==
  EncKids(n, Sorted(Kids(n, p)), Len(buf), buf \o EncNode(n, p, parentAt))
EncTrie(n) == EncSub(n, <<>>, 0, <<>>)

(* one node at position p of b: <<ok, position after it, <<key, parent, data, count>>>>, *)
(* or <<ok, position after it, <<>>>> for the end of a list of children                   *)
DecNode(b, p) ==
  LET u == DecUvarint(From(b, p))
      k == DecVarchar(From(b, p + u[2]))
      o == DecUvarint(From(b, p + u[2] + k[2]))
      v == DecVal(From(b, p + u[2] + k[2] + o[2]))
      c == DecUvarint(From(b, p + u[2] + k[2] + o[2] + v[2]))
  IN IF ~u[1] THEN Fail
     ELSE IF u[3] = 0 THEN <<TRUE, p + u[2], <<>>>>
     ELSE IF ~k[1] THEN Fail ELSE IF ~o[1] THEN Fail ELSE IF ~v[1] THEN Fail ELSE IF ~c[1] THEN Fail
     ELSE <<TRUE, p + u[2] + k[2] + o[2] + v[2] + c[2],
            <<k[3], o[3], IF v[3] = NilVal THEN NoData ELSE v[3], c[3]>>>>

(* path: the open nodes as <<path, offset, announced number of children>> *)
RECURSIVE DecNodes(_, _, _, _)
DecNodes(b, p, path, n) ==
  LET d == DecNode(b, p)
      top == path[Len(path)]
      key == Append(top[1], d[3][1])
  IN IF ~d[1] THEN Fail
     ELSE IF d[3] = <<>>
     THEN IF Cardinality(Kids(n, top[1])) # top[3] THEN Fail
          ELSE IF Len(path) = 1 THEN <<TRUE, d[2], n>>
          ELSE DecNodes(b, d[2], SubSeq(path, 1, Len(path) - 1), n)
     ELSE IF d[3][1] = <<>> \/ d[3][2] # top[2] THEN Fail
     ELSE DecNodes(b, d[2], Append(path, <<key, p, d[3][4]>>),
                   [x \in DOMAIN n \cup {key} |-> IF x = key THEN d[3][3] ELSE n[x]])
DecTrie(b) ==
  LET d == DecNode(b, 0)
  IN IF b = <<>> THEN Fail ELSE IF ~d[1] THEN Fail ELSE IF d[3] = <<>> THEN Fail
     ELSE IF d[3][1] # <<>> THEN Fail
     ELSE DecNodes(b, d[2], <<<<<<>>, 0, d[3][4]>>>>, [x \in {<<>>} |-> d[3][3]])
=============================================================================
