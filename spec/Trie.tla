-------------------------------- MODULE Trie --------------------------------
(* Tries as their users see them: finite maps from keys (sequences of sub    *)
(* keys) to values, with iteration in key order, encoding and decoding.       *)
(*                                                                            *)
(* A trie may also yield keys that hold no value (with a nil value): the      *)
(* inner nodes on the way to a key, that is proper prefixes of keys that were *)
(* set and not removed.  Setting a value that is nil (an empty byte string,   *)
(* array or list) leaves such a key as well ("ghost").                        *)
EXTENDS Lex, FiniteSets, SequencesExt, TLC

NilV == <<"n", <<>>>>
NoKey == <<<<-1>>>>          \* in place of a key: no key

VARIABLES tries,   \* slot -> [m: stored keys -> values, ghosts: set of keys]; 0 is the live trie
          its,     \* iterator slot -> [m, rest, tol, last, has, peek]
          bytes    \* <<>>, or <<[m, ghosts] at the last encoding, its bytes>>
trievars == <<tries, its, bytes>>

NoMap == [k \in {} |-> NilV]
EmptyTrie == [m |-> NoMap, ghosts |-> {}]
TrieInit == tries = (0 :> EmptyTrie) /\ its = <<>> /\ bytes = <<>>

Lookup(s, k) == IF k \in DOMAIN tries[s].m THEN tries[s].m[k] ELSE NilV
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

(* setting the value v of key k; removing is setting Go's nil               *)
Set(k, v, isnil) ==
  /\ tries' = [tries EXCEPT ![0] =
       IF v = NilV THEN [m |-> Without(@.m, k),
                         ghosts |-> IF isnil THEN @.ghosts \ {k} ELSE @.ghosts \cup {k}]
       ELSE [m |-> [x \in DOMAIN @.m \cup {k} |-> IF x = k THEN v ELSE @.m[x]],
             ghosts |-> @.ghosts \ {k}]]
  /\ its' = <<>>               \* iterators do not survive modification
  /\ UNCHANGED bytes

(* no encoding can hold an empty sub key; a trie with one is refused, unless  *)
(* only keys without a value have it, which it need not keep                   *)
OddKeys(ks) == \E k \in ks : \E i \in 1..Len(k) : k[i] = <<>>
Encode(b) == bytes' = <<tries[0], b>> /\ UNCHANGED <<tries, its>>
(* the encoded trie, as slot s *)
Decode(s) == /\ bytes # <<>>
             /\ tries' = [x \in DOMAIN tries \cup {s} |-> IF x = s THEN bytes[1] ELSE tries[x]]
             /\ UNCHANGED <<its, bytes>>

-----------------------------------------------------------------------------
Less(a, b) == LexSeq(a, b) < 0
PathTo(k) == {SubSeq(k, 1, n) : n \in 0..Len(k)}
IsExt(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
(* selections *)
All == <<"all">>
Below(p) == <<"key", p>>
Between(s, e) == <<"range", s, e>>        \* either bound may be NoKey
In(sel, k) == CASE sel[1] = "all" -> TRUE
                [] sel[1] = "key" -> IsExt(k, sel[2])
                [] sel[1] = "range" -> /\ sel[2] = NoKey \/ ~Less(k, sel[2])
                                       /\ sel[3] = NoKey \/ Less(k, sel[3])
Valueless(t) == (UNION {PathTo(k) : k \in DOMAIN t.m \cup t.ghosts} \cup {<<>>}) \ DOMAIN t.m

(* an iterator: the stored keys still to yield, the value-less ones it may    *)
(* yield besides, the last key yielded, and what HasNext and Peek have        *)
(* announced about the next step: <<>> or <<answer>>                           *)
Open(i, s, sel) ==
  LET t == tries[s]
      it == [m |-> t.m,
             rest |-> SetToSortSeq({k \in DOMAIN t.m : In(sel, k)}, Less),
             tol |-> {k \in Valueless(t) : In(sel, k)},
             last |-> NoKey, has |-> <<>>, peek |-> <<>>]
  IN /\ its' = [x \in DOMAIN its \cup {i} |-> IF x = i THEN it ELSE its[x]]
     /\ UNCHANGED <<tries, bytes>>

After(it, k) == it.last = NoKey \/ Less(it.last, k)
(* whether the next step may yield key k with value v, or end (NoKey) *)
MayYield(it, k, v) ==
  /\ IF k = NoKey THEN it.rest = <<>> /\ v = NilV
     ELSE IF it.rest # <<>> /\ k = it.rest[1] THEN v = it.m[k]
     ELSE /\ k \in it.tol /\ After(it, k) /\ v = NilV
          /\ it.rest # <<>> => Less(k, it.rest[1])
  /\ it.has # <<>> => it.has[1] = (k # NoKey)
  /\ it.peek # <<>> => it.peek = <<k, v>>

HasNext(i, r) ==
  LET it == its[i]
  IN /\ it.has # <<>> => it.has[1] = r
     /\ it.peek # <<>> => r = (it.peek[1] # NoKey)
     /\ it.rest # <<>> => r
     /\ r => it.rest # <<>> \/ \E k \in it.tol : After(it, k)
     /\ its' = [its EXCEPT ![i].has = <<r>>]
     /\ UNCHANGED <<tries, bytes>>
Peek(i, k, v) ==
  /\ MayYield(its[i], k, v)
  /\ its' = [its EXCEPT ![i].peek = <<k, v>>]
  /\ UNCHANGED <<tries, bytes>>
Next_(i, k, v) ==
  /\ MayYield(its[i], k, v)
  /\ its' = [its EXCEPT ![i] =
       IF k = NoKey THEN [@ EXCEPT !.has = <<FALSE>>, !.peek = <<NoKey, NilV>>, !.tol = {}]
       ELSE [@ EXCEPT !.rest = IF @ # <<>> /\ @[1] = k THEN Tail(@) ELSE @,
                      !.last = k, !.has = <<>>, !.peek = <<>>]]
  /\ UNCHANGED <<tries, bytes>>
=============================================================================
