------------------------------ MODULE Objects ------------------------------
(* Keys, values, records, schemes, consensus ids and tries as objects that    *)
(* share one another, keep the bytes of their last encoding, are decoded from *)
(* bytes that belong to the caller, and are copied.                           *)
(*                                                                            *)
(* heap: sequence of nodes.  A node has                                       *)
(*   k    "key" "prim" "arr" "list" "rec" "trie" "sch" "leaf"; "smp" a byte    *)
(*        string decoded from its length and bytes alone                      *)
(*   con  constructed (modifiable), not decoded                               *)
(*   b    bytes of a prim or leaf;  s  sub keys;  r  nodes it consists of (0: *)
(*        none; of a rec: key, value, scheme);  ks  keys of a trie;           *)
(*   t, g time and signature of a rec;  x  content of a sch                   *)
(*   src  whose bytes it is made of, 0 if of nobody's                         *)
(*   dirty  modified by its own operations since it was last encoded          *)
(*   stale  something it consists of was modified since it was last encoded   *)
(*   bad    the caller overwrote bytes it is made of                          *)
(*   enc    itself encoded since it was last modified                         *)
(* hd: what the script calls an object -> its node                            *)
(* held: the bytes that each encoding handed out; the decoded objects' are the *)
(* caller's, and left out                                                       *)
EXTENDS TrieNodes, TLC

VARIABLES heap, hd, held
ovars == <<heap, hd, held>>
OInit == heap = <<>> /\ hd = <<>> /\ held = <<>>

ValKinds == {"prim", "arr", "list", "smp"}
Blank == [k |-> "prim", con |-> TRUE, b |-> <<>>, s |-> <<>>, r |-> <<>>, ks |-> <<>>,
          t |-> <<>>, g |-> <<>>, x |-> <<>>, src |-> 0,
          dirty |-> TRUE, stale |-> FALSE, bad |-> FALSE, enc |-> FALSE]

-----------------------------------------------------------------------------
RECURSIVE Reach(_, _)
Reach(hp, n) == {n} \cup UNION {Reach(hp, hp[n].r[i]) : i \in {j \in 1..Len(hp[n].r) : hp[n].r[j] # 0}}

(* the content as an item of Codec *)
RECURSIVE Val(_, _), Rec(_, _)
Val(hp, n) ==
  IF n = 0 THEN NilVal
  ELSE LET o == hp[n]
       IN CASE o.k \in {"prim", "smp"} -> <<"p", o.b>>
            [] o.k = "arr" -> <<"a", [i \in 1..Len(o.r) |-> Val(hp, o.r[i])]>>
            [] o.k = "list" -> <<"l", [i \in 1..Len(o.r) |-> Rec(hp, o.r[i])]>>
Subs(hp, n) == IF n = 0 THEN <<>> ELSE hp[n].s
Rec(hp, n) == LET o == hp[n] IN <<Subs(hp, o.r[1]), Val(hp, o.r[2]), Val(hp, o.r[3]), o.t, o.g>>

(* as accessors show it: empties are nil, but a signature shows without a time *)
RECURSIVE ShowVal(_), ShowRec(_)
ShowVal(v) ==
  IF v[1] = "n" \/ v[2] = <<>> THEN NilVal
  ELSE CASE v[1] = "p" -> v
         [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> ShowVal(v[2][i])]>>
         [] v[1] = "l" -> <<"l", [i \in 1..Len(v[2]) |-> ShowRec(v[2][i])]>>
ShowRec(r) == <<r[1], ShowVal(r[2]), ShowVal(r[3]), r[4], r[5]>>
(* stored pairs of a trie: those whose value is not nil *)
Pairs(hp, n, V(_)) == {<<hp[n].ks[i], V(Val(hp, hp[n].r[i]))>> : i \in
                         {j \in 1..Len(hp[n].ks) : NormVal(Val(hp, hp[n].r[j])) # NilVal}}
Show(hp, n) ==
  LET o == hp[n]
  IN CASE o.k = "key" -> o.s
       [] o.k \in ValKinds -> ShowVal(Val(hp, n))
       [] o.k = "rec" -> ShowRec(Rec(hp, n))
       [] o.k = "sch" -> o.x
       [] o.k = "leaf" -> o.b

(* what an encoding has to decode to *)
Same(hp, n, b) ==
  LET o == hp[n]
  IN CASE o.k = "key" -> DecKey(b) = <<TRUE, Len(b), o.s>>
       [] o.k \in {"prim", "arr", "list"} -> DecVal(b) = <<TRUE, Len(b), NormVal(Val(hp, n))>>
       [] o.k = "rec" -> DecRec(b) = <<TRUE, Len(b), NormRec(Rec(hp, n))>>
       [] o.k = "sch" -> DecScheme(b) = <<TRUE, Len(b), o.x>>
       [] o.k = "trie" ->
            LET d == DecTrie(b)
            IN /\ d[1] /\ d[2] = Len(b)
               /\ {<<p, d[3][p]>> : p \in {q \in DOMAIN d[3] : d[3][q] # NoData}} = Pairs(hp, n, NormVal)
       [] o.k = "leaf" -> b = o.b
       [] o.k = "smp" -> DecVarchar(b) = <<TRUE, Len(b), o.b>>

Fits(hp, n) ==
  LET o == hp[n]
  IN CASE o.k = "key" -> KeyFits(o.s)
       [] o.k \in {"prim", "arr", "list"} -> ValFits(NormVal(Val(hp, n)))
       [] o.k = "rec" -> RecFits(NormRec(Rec(hp, n)))
       [] o.k = "trie" -> \A i \in 1..Len(o.r) : ValFits(NormVal(Val(hp, o.r[i])))
       [] OTHER -> TRUE
(* decoded values and records cannot be encoded as parts of others, except as *)
(* the values of a trie                                                        *)
RECURSIVE Encodable(_, _)
Encodable(hp, n) ==
  LET o == hp[n]
  IN o.k = "key" \/ (o.con /\ \A i \in 1..Len(o.r) : LET e == o.r[i] IN
       IF e = 0 THEN TRUE ELSE IF o.k = "trie" /\ ~hp[e].con THEN TRUE ELSE Encodable(hp, e))

-----------------------------------------------------------------------------
Sound(n) == \A m \in Reach(heap, n) : ~heap[m].bad
Name(h, n) == hd' = [x \in DOMAIN hd \cup {h} |-> IF x = h THEN n ELSE hd[x]] /\ UNCHANGED held
(* a new object; its bytes belong to the caller under the name of the node *)
Make(h, node) == /\ heap' = Append(heap, [node EXCEPT !.src = Len(heap) + 1])
                 /\ Name(h, Len(heap) + 1)

(* node n becomes node; what consists of n is stale *)
Touched(hp, n, node) ==
  [m \in 1..Len(hp) |-> IF m = n THEN [node EXCEPT !.dirty = TRUE, !.enc = FALSE]
                        ELSE IF n \in Reach(hp, m) THEN [hp[m] EXCEPT !.stale = TRUE] ELSE hp[m]]
Modify(n, node) == heap' = Touched(heap, n, node) /\ UNCHANGED <<hd, held>>

AddSub(n, b) == Modify(n, [heap[n] EXCEPT !.s = Append(@, b)])
AppendPart(n, e) == Modify(n, [heap[n] EXCEPT !.r = Append(@, e)])
DeletePart(n, i) == Modify(n, [heap[n] EXCEPT !.r = SubSeq(@, 1, i) \o SubSeq(@, i + 2, Len(@))])
SetPart(n, p, e) == Modify(n, [heap[n] EXCEPT !.r = [@ EXCEPT ![p] = e]])
(* a part made of bytes of the caller *)
SetBytes(n, p, node) ==
  LET hp == Append(heap, [node EXCEPT !.src = heap[n].src])
  IN /\ heap' = Touched(hp, n, [hp[n] EXCEPT !.r = [@ EXCEPT ![p] = Len(hp)]])
     /\ UNCHANGED <<hd, held>>
SetTime(n, t) == Modify(n, [heap[n] EXCEPT !.t = t])
SetSig(n, g) == Modify(n, [heap[n] EXCEPT !.g = g])
At(o, k) == CHOOSE i \in 1..Len(o.ks) : o.ks[i] = k
HasAt(o, k) == \E i \in 1..Len(o.ks) : o.ks[i] = k
(* e = 0 removes *)
SetAt(n, k, e) ==
  LET o == heap[n]
      i == At(o, k)
      gone == [o EXCEPT !.ks = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@)),
                        !.r = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
      o1 == IF HasAt(o, k) THEN gone ELSE o
  IN Modify(n, IF e = 0 THEN o1 ELSE [o1 EXCEPT !.ks = Append(@, k), !.r = Append(@, e)])

(* The encoding may refresh the parts' bytes as well, or not. *)
Encoded(n, ok) ==
  LET down == Reach(heap, n)
  IN /\ heap' = [m \in 1..Len(heap) |->
                   IF m = n THEN (IF ok THEN [heap[m] EXCEPT !.dirty = FALSE, !.stale = FALSE, !.enc = TRUE] ELSE heap[m])
                   ELSE IF m \in down THEN [heap[m] EXCEPT !.dirty = FALSE] ELSE heap[m]]
     /\ UNCHANGED hd
(* bytes handed out never change afterwards *)
Hold(n, err, b) == held' = Append(held, IF ~err /\ heap[n].con THEN b ELSE <<>>)
Held(i, b) == (held[i] # <<>> => b = held[i]) /\ UNCHANGED ovars
Encode(n, err, b) ==
  /\ Sound(n) =>
       /\ ~err => Same(heap, n, b)
       /\ Encodable(heap, n) => (err <=> ~Fits(heap, n))
  /\ Encoded(n, ~err)
  /\ Hold(n, err, b)
(* bytes handed out without encoding *)
Bytes(n, has, b) ==
  /\ Sound(n) /\ has /\ (heap[n].dirty \/ ~heap[n].stale) => Same(heap, n, b)
  /\ ~heap[n].con /\ heap[n].k # "sch" => has      \* decoded objects have their bytes
  /\ UNCHANGED ovars

(* what an object tells about itself *)
Protocol(n, isdec, isenc) ==
  /\ isdec
  /\ (~heap[n].con /\ heap[n].k # "sch") \/ heap[n].enc => isenc    \* schemes copy as constructed ones
ValueAnswers(n, a) ==
  LET v == ShowVal(Val(heap, n))
      k == v[1]
  IN /\ a.nil = (k = "n")
     /\ k # "n" => a.prim = (k = "p") /\ a.arr = (k = "a") /\ a.list = (k = "l")
     /\ a.size = (IF k \in {"a", "l"} THEN Len(v[2]) ELSE 0)
     /\ a.content = (IF k = "p" THEN v[2] ELSE <<>>)
     /\ a.plain                                   \* neither look up nor compression encoder
     /\ \A i \in 1..Len(a.at) : a.at[i][2] = (k = "a" /\ a.at[i][1] < a.size)
     /\ \A i \in 1..Len(a.rat) : a.rat[i][2] = (k = "l" /\ a.rat[i][1] < a.size)
KeyAnswers(n, a) == a.empty = (heap[n].s = <<>>) /\ a.key = heap[n].s /\ a.each = heap[n].s
(* encoding what was decoded from bytes, decoding what was constructed *)
Refused(n, what, err) ==
  /\ IF what = "enc" THEN ~heap[n].con /\ (heap[n].k # "key" => err) ELSE heap[n].con /\ err
  /\ UNCHANGED ovars
Redecoded(n, err, used, b) ==
  /\ ~heap[n].con
  /\ Sound(n) => ~err /\ used = Len(b) /\ Same(heap, n, b)
  /\ UNCHANGED ovars

(* deep copies *)
RECURSIVE CopyT(_, _, _)
CopyT(hp, n, con) ==
  LET z == FoldLeft(LAMBDA acc, e : IF e = 0 THEN <<acc[1], Append(acc[2], 0)>>
                                    ELSE LET y == CopyT(acc[1], e, con)
                                         IN <<y[1], Append(acc[2], y[2])>>,
                    <<hp, <<>>>>, hp[n].r)
      o == [hp[n] EXCEPT !.r = z[2], !.src = 0, !.dirty = TRUE, !.stale = FALSE, !.con = @ \/ con, !.enc = FALSE,
                     !.k = IF @ = "smp" /\ con THEN "prim" ELSE @]
  IN <<Append(z[1], o), Len(z[1]) + 1>>
Copy(n, h, con) == LET z == CopyT(heap, n, con) IN heap' = z[1] /\ Name(h, z[2])

(* decoding bytes that encode node n; they belong to the caller *)
RECURSIVE ParseT(_, _, _)
Absent_(hp, n) == n = 0 \/ (IF hp[n].k = "key" THEN hp[n].s = <<>> ELSE hp[n].k \in ValKinds /\ NormVal(Val(hp, n)) = NilVal)
ParseT(hp, n, src) ==
  LET o == hp[n]
      drop(e) == Absent_(hp, e) /\ o.k \in {"rec", "trie"}
      keep == IF o.k = "trie" THEN SelectSeq([i \in 1..Len(o.r) |-> i], LAMBDA i : ~drop(o.r[i]))
              ELSE [i \in 1..Len(o.r) |-> i]
      z == FoldLeft(LAMBDA acc, i : IF drop(o.r[i]) THEN <<acc[1], Append(acc[2], 0)>>
                                    ELSE LET y == ParseT(acc[1], o.r[i], src)
                                         IN <<y[1], Append(acc[2], y[2])>>,
                    <<hp, <<>>>>, keep)
      c == [o EXCEPT !.r = z[2], !.con = FALSE, !.src = src, !.dirty = TRUE, !.stale = FALSE, !.enc = FALSE,
                     !.k = IF @ = "smp" THEN "prim" ELSE @,     \* within another
                     !.ks = IF o.k = "trie" THEN [i \in 1..Len(keep) |-> o.ks[keep[i]]] ELSE @,
                     !.g = IF o.t = <<>> THEN <<>> ELSE @]
      nilv == [Blank EXCEPT !.con = FALSE, !.src = src]
  IN IF o.k \in {"arr", "list"} /\ o.r = <<>> THEN <<Append(hp, nilv), Len(hp) + 1>>
     ELSE <<Append(z[1], c), Len(z[1]) + 1>>
(* the name of the bytes: beyond all nodes, unique to the decoded node *)
Parse(n, h) ==
  LET src == -(Len(heap) + 1)
      z == IF heap[n].k = "smp" THEN <<Append(heap, [heap[n] EXCEPT !.src = src]), Len(heap) + 1>>
           ELSE ParseT(heap, n, src)
  IN heap' = z[1] /\ Name(h, z[2])

(* the caller overwrites all bytes it made an object of *)
Scribble(n) ==
  /\ heap[n].src # 0
  /\ heap' = [m \in 1..Len(heap) |-> IF heap[m].src = heap[n].src THEN [heap[m] EXCEPT !.bad = TRUE] ELSE heap[m]]
  /\ UNCHANGED <<hd, held>>
(* the caller overwrites the bytes that a key, byte string, scheme or id shows: *)
(* those it was made of, or its own                                            *)
Poke(n) ==
  /\ heap[n].k \in {"key", "prim", "smp", "sch", "leaf"}
  /\ IF heap[n].src # 0 THEN Scribble(n)
     ELSE heap' = [heap EXCEPT ![n].bad = TRUE] /\ UNCHANGED <<hd, held>>
=============================================================================
