------------------------------- MODULE Forest -------------------------------
(* Trie nodes as they are put together by hand (src/util/trie_util.go):       *)
(* each knows its parent, its own sub key, a value, an offset and the         *)
(* children put under it; a node made for a parent is under it only once put   *)
(* there.  Mapped nodes are read from bytes, which puts them under the parent  *)
(* given, and are not modified otherwise.                                      *)
EXTENDS Codec, Lex, FiniteSets

VARIABLE nodes          \* sequence of [p, k, v, kids, off, enc, made]
(* p: number of the parent, 0: none; kids: sub key -> number; enc: the bytes   *)
(* of the latest encoding, <<>>: none; made: constructed, not mapped            *)

NoKids == [k \in {} |-> 0]
Node(p, k, v) == [p |-> p, k |-> IF p = 0 THEN <<>> ELSE k, v |-> v, kids |-> NoKids, off |-> 0, enc |-> <<>>, made |-> TRUE]
ForestInit == nodes = <<>>

New(p, k, v) == nodes' = Append(nodes, Node(p, k, v))
With(kids, k, n) == [x \in DOMAIN kids \cup {k} |-> IF x = k THEN n ELSE kids[x]]
Less_(kids, k) == [x \in DOMAIN kids \ {k} |-> kids[x]]
(* mapped nodes refuse *)
PutUnder(n) == IF nodes[nodes[n].p].made
               THEN nodes' = [nodes EXCEPT ![nodes[n].p].kids = With(@, nodes[n].k, n)]
               ELSE UNCHANGED nodes
Take(p, k) == IF nodes[p].made THEN nodes' = [nodes EXCEPT ![p].kids = Less_(@, k)] ELSE UNCHANGED nodes
Give(n, v) == IF nodes[n].made THEN nodes' = [nodes EXCEPT ![n].v = v] ELSE UNCHANGED nodes
Place(n, o) == IF nodes[n].made THEN nodes' = [nodes EXCEPT ![n].off = o] ELSE UNCHANGED nodes

RECURSIVE Path(_)
Path(n) == IF nodes[n].p = 0 THEN <<>> ELSE Append(Path(nodes[n].p), nodes[n].k)
KeysOf(n) == SetToSortSeq(DOMAIN nodes[n].kids, LAMBDA a, b : LexInt(a, b) < 0)
RECURSIVE Family(_)          \* a node and all under it, in order
Family(n) == FoldLeft(LAMBDA s, k : s \o Family(nodes[n].kids[k]), <<n>>, KeysOf(n))
RECURSIVE Leads(_, _)        \* whether sub keys lead from a node to another one
Leads(n, k) == IF k = <<>> THEN TRUE
               ELSE IF Head(k) \notin DOMAIN nodes[n].kids THEN FALSE
               ELSE Leads(nodes[n].kids[Head(k)], Tail(k))
Entry(n) == <<Path(n), nodes[n].v>>
Listing(ns) == [i \in 1..Len(ns) |-> Entry(ns[i])]
IsRoot(n) == nodes[n].p = 0
(* all from node n on, below the root r *)
Begins(r, n) == IsRoot(r) /\ Leads(r, Path(n))
Within(r, hasS, s, hasE, e) ==
  SelectSeq(Family(r), LAMBDA n : /\ hasS => LexSeq(Path(n), s) >= 0
                                  /\ hasE => LexSeq(Path(n), e) < 0)

ParentAt(n) == IF nodes[n].p = 0 THEN 0 ELSE nodes[nodes[n].p].off
Bytes(n) == Uvarint(1) \o Varchar(nodes[n].k) \o Uvarint(ParentAt(n)) \o EncVal(nodes[n].v)
            \o Uvarint(Cardinality(DOMAIN nodes[n].kids))
Encodes(n) == nodes[n].made /\ ValFits(nodes[n].v)
Write(n) == IF Encodes(n) THEN nodes' = [nodes EXCEPT ![n].enc = Bytes(n)] ELSE UNCHANGED nodes
(* a copy has a list of children of its own, of the same children *)
CopyNode(n) == nodes' = Append(nodes, [nodes[n] EXCEPT !.off = 0, !.enc = <<>>])
CopyMapped(n) == nodes' = Append(nodes, [nodes[n] EXCEPT !.p = 0, !.kids = NoKids])

(* reading: <<ok, length, key, parent's offset, value>> *)
Read(b) ==
  LET u == DecUvarint(b)
      k == DecVarchar(From(b, u[2]))
      o == DecUvarint(From(b, u[2] + k[2]))
      v == DecVal(From(b, u[2] + k[2] + o[2]))
      c == DecUvarint(From(b, u[2] + k[2] + o[2] + v[2]))
      no == <<FALSE, 0, <<>>, 0, NilVal>>
  IN IF ~u[1] THEN no ELSE IF u[3] = 0 THEN no
     ELSE IF ~k[1] THEN no ELSE IF ~o[1] THEN no ELSE IF ~v[1] THEN no ELSE IF ~c[1] THEN no
     ELSE <<TRUE, u[2] + k[2] + o[2] + v[2] + c[2], k[3], o[3], v[3]>>
Readable(b, p) == LET r == Read(b)
                  IN /\ r[1] /\ (r[3] = <<>>) = (p = 0)
                     /\ p # 0 => r[4] = nodes[p].off
Map(b, p, o) ==
  LET r == Read(b)
      n == [p |-> p, k |-> r[3], v |-> r[5], kids |-> NoKids, off |-> o, enc |-> SubSeq(b, 1, r[2]), made |-> FALSE]
      more == Append(nodes, n)
  IN nodes' = IF p = 0 THEN more ELSE [more EXCEPT ![p].kids = With(@, r[3], Len(more))]
=============================================================================
