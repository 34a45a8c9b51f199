------------------------------- MODULE Reading -------------------------------
(* What any bytes hold, whoever wrote them: the decoders of src/util as readers  *)
(* of untrusted or foreign bytes.  Numbers may be written longer than needed, up  *)
(* to 64 bits in ten bytes; the elements of arrays and lists are read from the     *)
(* content one after the other when asked for, so that from the first unreadable   *)
(* one on none is available, and content left over is ignored.                     *)
(*                                                                                *)
(* Readers look at b from position p (from 0) to its end e and give               *)
(* <<ok, position after it, item>>; items are those of Codec, with Unread for an    *)
(* element that cannot be read, and empty values of each kind kept apart.          *)
EXTENDS Codec, Lex, FiniteSets
V == INSTANCE Varint
MP == INSTANCE MphLayout

Unread == <<"x", <<>>>>
Huge == 268435456            \* stands for numbers that exceed any length

RECURSIVE UvLast(_, _, _, _)
UvLast(b, i, e, n) == IF i > e \/ n > 10 THEN 0 ELSE IF b[i] < 128 THEN i ELSE UvLast(b, i + 1, e, n + 1)
Group(b, i, z) == IF i <= z THEN b[i] % 128 ELSE 0
UvAt(b, p, e) ==
  LET z == UvLast(b, p + 1, e, 1)
  IN IF z = 0 THEN Fail
     ELSE IF z - p = 10 /\ b[z] > 1 THEN Fail
     ELSE <<TRUE, z, IF \E i \in (p + 5)..z : b[i] % 128 # 0 THEN Huge
                     ELSE Group(b, p + 1, z) + 128 * Group(b, p + 2, z)
                          + 16384 * Group(b, p + 3, z) + 2097152 * Group(b, p + 4, z)>>
VcAt(b, p, e) ==
  LET u == UvAt(b, p, e)
  IN IF ~u[1] THEN Fail ELSE IF u[3] > e - u[2] THEN Fail
     ELSE <<TRUE, u[2] + u[3], SubSeq(b, u[2] + 1, u[2] + u[3])>>
RECURSIVE VcsAt(_, _, _, _, _)
VcsAt(b, p, e, n, out) ==
  IF n = 0 THEN <<TRUE, p, out>>
  ELSE LET v == VcAt(b, p, e) IN IF ~v[1] THEN Fail ELSE VcsAt(b, v[2], e, n - 1, Append(out, v[3]))
ListAt(b, p, e) ==
  LET u == UvAt(b, p, e)
  IN IF ~u[1] THEN Fail ELSE IF u[3] > e - u[2] THEN Fail ELSE VcsAt(b, u[2], e, u[3], <<>>)

-----------------------------------------------------------------------------
NumAt(b, p, e, width) ==
  IF width = 3 \/ e < p + width THEN Fail
  ELSE <<TRUE, p + width, IF width = 0 THEN 0 ELSE IF width = 1 THEN b[p + 1] ELSE b[p + 1] * 256 + b[p + 2]>>
(* the header of a value: item is <<kind, elements, start of the content>> *)
HeadAt(b, p, e) ==
  IF p >= e THEN Fail
  ELSE LET m == b[p + 1]
           ab == m \div 64
           lb == (m \div 16) % 4
           n == NumAt(b, p + 1, e, IF ab # 0 THEN ab ELSE lb)
           c == NumAt(b, n[2], e, m % 4)
       IN IF (ab # 0 /\ lb # 0) \/ (m \div 4) % 4 # 0 THEN Fail
          ELSE IF ~n[1] THEN Fail ELSE IF ~c[1] THEN Fail
          ELSE IF c[2] + c[3] > e \/ n[3] > c[3] THEN Fail
          ELSE <<TRUE, c[2] + c[3],
                 <<IF m = 0 THEN "n" ELSE IF ab # 0 THEN "a" ELSE IF lb # 0 THEN "l" ELSE "p", n[3], c[2]>>>>

RECURSIVE ItemOf(_, _), ValsAt(_, _, _, _, _), RecsAt(_, _, _, _, _)
Rest(out, n) == out \o [i \in 1..n |-> Unread]
ValAt(b, p, e) == LET h == HeadAt(b, p, e) IN IF ~h[1] THEN Fail ELSE <<TRUE, h[2], ItemOf(b, h)>>
Reserved(m) == (m \div 128) % 2 = 1 \/ (m \div 8) % 2 = 1 \/ m % 2 = 1
RecAt(b, p, e) ==
  IF p >= e THEN Fail
  ELSE LET m == b[p + 1]
           k == IF Has(m, 64) THEN ListAt(b, p + 1, e) ELSE <<TRUE, p + 1, <<>>>>
           v == IF Has(m, 32) THEN HeadAt(b, k[2], e) ELSE <<TRUE, k[2], <<>>>>
           s == IF Has(m, 16) THEN HeadAt(b, v[2], e) ELSE <<TRUE, v[2], <<>>>>
           t == s[2] + (IF Has(m, 4) THEN 8 ELSE 0)
           g == t + (IF Has(m, 2) /\ t + 64 <= e THEN 64 ELSE 0)
           Part(h) == IF h[3] = <<>> THEN NilVal ELSE ItemOf(b, h)
       IN IF ~k[1] THEN Fail ELSE IF ~v[1] THEN Fail ELSE IF ~s[1] THEN Fail
          ELSE IF \/ (Has(m, 64) /\ k[3] # <<>> /\ k[2] - p - 1 > MaxKey)
                  \/ v[2] - k[2] > MaxValue \/ s[2] - v[2] > MaxScheme \/ t > e THEN Fail
          ELSE <<TRUE, g, <<k[3], Part(v), Part(s), SubSeq(b, s[2] + 1, t), SubSeq(b, t + 1, g)>>>>
ItemOf(b, h) ==
  LET p == h[3][3]
      e == h[2]
  IN CASE h[3][1] = "n" -> NilVal
       [] h[3][1] = "p" -> <<"p", SubSeq(b, p + 1, e)>>
       [] h[3][1] = "a" -> <<"a", ValsAt(b, p, e, h[3][2], <<>>)>>
       [] h[3][1] = "l" -> <<"l", RecsAt(b, p, e, h[3][2], <<>>)>>
ValsAt(b, p, e, n, out) ==
  IF n = 0 THEN out
  ELSE LET v == ValAt(b, p, e)
       IN IF ~v[1] THEN Rest(out, n) ELSE ValsAt(b, v[2], e, n - 1, Append(out, v[3]))
RecsAt(b, p, e, n, out) ==
  IF n = 0 THEN out
  ELSE LET r == RecAt(b, p, e)
       IN IF ~r[1] THEN Rest(out, n) ELSE RecsAt(b, r[2], e, n - 1, Append(out, r[3]))

(* whether everything in an item can be read *)
RECURSIVE Clean(_), CleanRec(_)
Clean(v) == CASE v[1] = "x" -> FALSE
              [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Clean(v[2][i])
              [] v[1] = "l" -> \A i \in 1..Len(v[2]) : CleanRec(v[2][i])
              [] OTHER -> TRUE
CleanRec(r) == r # Unread /\ Clean(r[2]) /\ Clean(r[3])

-----------------------------------------------------------------------------
SchAt(b, p, e) ==
  IF p >= e THEN Fail
  ELSE LET m == b[p + 1]
           d == IF Has(m, 128) THEN VcAt(b, p + 1, e) ELSE <<TRUE, p + 1, <<>>>>
           t == IF Has(m, 64) THEN VcAt(b, d[2], e) ELSE <<TRUE, d[2], <<>>>>
           u == IF Has(m, 32) THEN ListAt(b, t[2], e) ELSE <<TRUE, t[2], <<>>>>
           Part(bit, x) == IF Has(m, bit) THEN <<TRUE, x[3]>> ELSE Absent
       IN IF ~d[1] THEN Fail ELSE IF ~t[1] THEN Fail ELSE IF ~u[1] THEN Fail
          ELSE <<TRUE, u[2], <<Part(128, d), Part(64, t), Part(32, u)>>>>

-----------------------------------------------------------------------------
(* a trie: nodes until the lists of children of all of them have ended.  A node  *)
(* with the sub key of an earlier sibling replaces it and all below it.          *)
Nowhere == <<-1>>            \* no data
NodeAt(b, p, e) ==
  LET f == UvAt(b, p, e)
      k == VcAt(b, f[2], e)
      o == UvAt(b, k[2], e)
      v == HeadAt(b, o[2], e)
      c == UvAt(b, v[2], e)
  IN IF ~f[1] THEN Fail
     ELSE IF f[3] = 0 THEN <<TRUE, f[2], <<>>>>
     ELSE IF ~k[1] THEN Fail ELSE IF ~o[1] THEN Fail ELSE IF ~v[1] THEN Fail ELSE IF ~c[1] THEN Fail
     ELSE <<TRUE, c[2], <<k[3], o[3], IF v[3][1] = "n" THEN Nowhere ELSE ItemOf(b, v), c[3]>>>>
BelowOf(n, p) == {x \in DOMAIN n : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p}
Without(n, p) == {x \in DOMAIN n : Len(x) < Len(p) \/ SubSeq(x, 1, Len(p)) # p}
RECURSIVE NodesAt(_, _, _, _, _)
NodesAt(b, p, e, path, n) ==
  LET d == NodeAt(b, p, e)
      top == path[Len(path)]
      key == Append(top[1], d[3][1])
  IN IF ~d[1] THEN Fail
     ELSE IF d[3] = <<>>
     THEN IF Cardinality(BelowOf(n, top[1])) # top[3] THEN Fail
          ELSE IF Len(path) = 1 THEN <<TRUE, d[2], n>>
          ELSE NodesAt(b, d[2], e, SubSeq(path, 1, Len(path) - 1), n)
     ELSE IF d[3][1] = <<>> \/ d[3][2] # top[2] THEN Fail
     ELSE NodesAt(b, d[2], e, Append(path, <<key, p, d[3][4]>>),
                  [x \in Without(n, key) \cup {key} |-> IF x = key THEN d[3][3] ELSE n[x]])
NodeTree(b, p, e) ==
  LET d == NodeAt(b, p, e)
  IN IF ~d[1] THEN Fail ELSE IF d[3] = <<>> THEN Fail
     ELSE IF d[3][1] # <<>> THEN Fail
     ELSE NodesAt(b, d[2], e, <<<<<<>>, 0, d[3][4]>>>>, [x \in {<<>>} |-> d[3][3]])
(* the entries in the order of their keys *)
EntriesOf(n) ==
  LET ks == SetToSortSeq({k \in DOMAIN n : n[k] # Nowhere}, LAMBDA x, y : LexSeq(x, y) < 0)
  IN [i \in 1..Len(ks) |-> <<ks[i], n[ks[i]]>>]
TrieAt(b, p, e) == LET t == NodeTree(b, p, e) IN IF ~t[1] THEN Fail ELSE <<TRUE, t[2], EntriesOf(t[3])>>

-----------------------------------------------------------------------------
RECURSIVE KeysAt(_, _, _, _, _)
KeysAt(b, p, e, n, ks) ==
  IF n = 0 THEN <<TRUE, p, ks>>
  ELSE LET k == ListAt(b, p, e) IN IF ~k[1] THEN Fail ELSE KeysAt(b, k[2], e, n - 1, Append(ks, k[3]))
TableOf(b) ==
  IF b = <<>> THEN Fail
  ELSE IF b[1] > 1 THEN Fail
  ELSE LET l0 == MP!Level(b, 1)
           l1 == MP!Level(b, l0[2])
           w == MP!Word(b, l1[2])
           ks == KeysAt(b, w[2], Len(b), w[3][2], <<>>)
           hs == MP!List(b, w[2])
           T == [MP!NoTable EXCEPT !.bykey = (b[1] = 1), !.l0 = l0[3], !.l1 = l1[3]]
       IN IF ~l0[1] THEN Fail ELSE IF ~l1[1] THEN Fail ELSE IF ~w[1] THEN Fail
          ELSE IF b[1] = 1
          THEN IF w[3][1] # 0 THEN Fail ELSE IF ~ks[1] THEN Fail
               ELSE <<TRUE, ks[2], [T EXCEPT !.keys = ks[3]]>>
          ELSE IF ~hs[1] THEN Fail ELSE <<TRUE, hs[2], [T EXCEPT !.seed = w[3], !.hashes = hs[3]]>>

-----------------------------------------------------------------------------
(* of a whole byte string; nothing at all reads as zero, no bytes, the empty key *)
Read(kind, b) ==
  LET e == Len(b)
      Some(x, d) == IF b = <<>> THEN <<TRUE, 0, d>> ELSE x
      u == UvAt(b, 0, e)
      Num(x) == IF u[1] THEN <<TRUE, u[2], x>> ELSE Fail
  IN CASE kind = "uv" -> Some(Num(V!DecU64(b)), <<0, 0, 0, 0>>)
       [] kind = "sv" -> Some(Num(V!DecI64(b)), <<0, 0, 0, 0>>)
       [] kind \in {"vc", "sval"} -> Some(VcAt(b, 0, e), <<>>)
       [] kind = "key" -> Some(ListAt(b, 0, e), <<>>)
       [] kind = "val" -> ValAt(b, 0, e)
       [] kind = "rec" -> RecAt(b, 0, e)
       [] kind = "sch" -> SchAt(b, 0, e)
       [] kind = "trie" -> TrieAt(b, 0, e)
       [] kind = "mph" -> TableOf(b)
Readable(kind, item) == CASE kind = "val" -> Clean(item)
                          [] kind = "rec" -> CleanRec(item)
                          [] OTHER -> TRUE
=============================================================================
