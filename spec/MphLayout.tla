------------------------------ MODULE MphLayout ------------------------------
(* The serialised perfect hash table, and what any program finds in one: a      *)
(* magic byte, the seeds of the first level and the indices of the second, each  *)
(* with its length and mask, then the keys, or the hashes of the keys under a    *)
(* seed.  A key selects by its hash under seed 0 the seed under which its hash    *)
(* selects the index.                                                             *)
EXTENDS Murmur
CD == INSTANCE Codec
NoTable == [bykey |-> FALSE, l0 |-> <<>>, l1 |-> <<>>, keys |-> <<>>, seed |-> <<0, 0>>, hashes |-> <<>>]
Zero == <<0, 0>>
Slot(h, n) == (h[2] & (n - 1)) + 1            \* of n slots, a power of two up to 2^16
Find(t, k) ==
  LET seed == t.l0[Slot(KeyHash(Zero, k), Len(t.l0))]
      w == t.l1[Slot(KeyHash(seed, k), Len(t.l1))]
      i == IF w[1] # 0 THEN 65536 ELSE w[2]
      size == IF t.bykey THEN Len(t.keys) ELSE Len(t.hashes)
  IN IF i >= size THEN <<FALSE, 0>>
     ELSE IF t.bykey THEN (IF t.keys[i + 1] = k THEN <<TRUE, i>> ELSE <<FALSE, 0>>)
     ELSE (IF t.hashes[i + 1] = KeyHash(t.seed, k) THEN <<TRUE, i>> ELSE <<FALSE, 0>>)
Num(n) == <<n \div 65536, n % 65536>>
Words_(ws) == FoldLeft(LAMBDA b, w : b \o BigBytes(w), <<>>, ws)
Sized(ws) == BigBytes(Num(Len(ws))) \o Words_(ws)
EncTable(t) ==
  <<IF t.bykey THEN 1 ELSE 0>>
  \o Sized(t.l0) \o BigBytes(Num(Len(t.l0) - 1)) \o Sized(t.l1) \o BigBytes(Num(Len(t.l1) - 1))
  \o (IF t.bykey THEN BigBytes(Num(Len(t.keys))) \o FoldLeft(LAMBDA b, k : b \o CD!EncKey(k), <<>>, t.keys)
      ELSE BigBytes(t.seed) \o Sized(t.hashes))

(* <<ok, position after it, what was read>> at position p (from 0) *)
Fail == <<FALSE, 0, <<>>>>
Word(b, p) == IF Len(b) < p + 4 THEN Fail ELSE <<TRUE, p + 4, BigWord(b, p + 1)>>
List(b, p) ==
  LET n == Word(b, p)
  IN IF ~n[1] THEN Fail
     ELSE IF n[3][1] # 0 \/ Len(b) < p + 4 + 4 * n[3][2] THEN Fail
     ELSE <<TRUE, p + 4 + 4 * n[3][2], [i \in 1..n[3][2] |-> BigWord(b, p + 4 * i + 1)]>>
Level(b, p) ==
  LET s == List(b, p)
      m == Word(b, s[2])
  IN IF ~s[1] THEN Fail ELSE IF ~m[1] THEN Fail
     ELSE IF s[3] = <<>> \/ m[3] # Num(Len(s[3]) - 1) THEN Fail ELSE <<TRUE, m[2], s[3]>>
RECURSIVE Keys_(_, _, _, _)
Keys_(b, p, n, ks) ==
  IF n = 0 THEN <<TRUE, p, ks>>
  ELSE LET k == CD!DecKey(SubSeq(b, p + 1, Len(b)))
       IN IF p >= Len(b) \/ ~k[1] THEN Fail ELSE Keys_(b, p + k[2], n - 1, Append(ks, k[3]))
DecTable(b) ==
  IF b = <<>> THEN Fail
  ELSE IF b[1] > 1 THEN Fail
  ELSE LET l0 == Level(b, 1)
           l1 == Level(b, l0[2])
           w == Word(b, l1[2])
           ks == Keys_(b, w[2], w[3][2], <<>>)
           hs == List(b, w[2])
           bk == b[1] = 1
       IN IF ~l0[1] THEN Fail ELSE IF ~l1[1] THEN Fail ELSE IF ~w[1] THEN Fail
          ELSE IF bk
          THEN IF ~ks[1] THEN Fail
               ELSE <<TRUE, ks[2], [NoTable EXCEPT !.bykey = TRUE, !.l0 = l0[3], !.l1 = l1[3], !.keys = ks[3]]>>
          ELSE IF ~hs[1] THEN Fail
               ELSE <<TRUE, hs[2], [NoTable EXCEPT !.l0 = l0[3], !.l1 = l1[3], !.seed = w[3], !.hashes = hs[3]]>>

-----------------------------------------------------------------------------
(* a table of distinct keys, by hash and displace *)
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
(* places the keys of the buckets bs, the largest first; a seed is tried from s *)
RECURSIVE Displace(_, _, _, _, _)
Displace(ks, bs, l0, l1, s) ==
  IF bs = <<>> THEN <<l0, l1>>
  ELSE LET is == bs[1][2]
           at == [j \in 1..Len(is) |-> Slot(KeyHash(Num(s), ks[is[j]]), Len(l1))]
           free == /\ \A j \in 1..Len(is) : l1[at[j]] = <<>>
                   /\ \A i, j \in 1..Len(is) : i # j => at[i] # at[j]
       IN IF free
          THEN Displace(ks, Tail(bs), [l0 EXCEPT ![bs[1][1]] = Num(s)],
                        [p \in DOMAIN l1 |-> IF \E j \in 1..Len(is) : at[j] = p
                                             THEN Num(is[CHOOSE j \in 1..Len(is) : at[j] = p] - 1) ELSE l1[p]], 0)
          ELSE Displace(ks, bs, l0, l1, s + 1)
Make(ks, bykey, n0, seed) ==
  LET in(p) == SelectSeq([i \in 1..Len(ks) |-> i], LAMBDA i : Slot(KeyHash(Zero, ks[i]), n0) = p)
      bs == SortSeq(SelectSeq([p \in 1..n0 |-> <<p, in(p)>>], LAMBDA x : x[2] # <<>>),
                    LAMBDA x, y : Len(x[2]) > Len(y[2]))
      d == Displace(ks, bs, [p \in 1..n0 |-> Zero], [p \in 1..Pow2(Len(ks), 1) |-> <<>>], 0)
      l1 == [p \in DOMAIN d[2] |-> IF d[2][p] = <<>> THEN Zero ELSE d[2][p]]
  IN IF bykey THEN [NoTable EXCEPT !.bykey = TRUE, !.l0 = d[1], !.l1 = l1, !.keys = ks]
     ELSE [NoTable EXCEPT !.l0 = d[1], !.l1 = l1, !.seed = seed,
           !.hashes = [i \in 1..Len(ks) |-> KeyHash(seed, ks[i])]]
=============================================================================
