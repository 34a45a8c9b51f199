-------------------------- MODULE Trace_TrieBulk ---------------------------
(* Recorded calls on tries of thousands of numbered keys: the map is that of  *)
(* SortedMap, from numbers to values; the keys decide the order.              *)
EXTENDS SortedMap, Lex, TraceBase

VARIABLES style, base,  \* how the keys are made of their numbers
          saved         \* the content of the encoded trie
tvars == <<l, m, its, resp, style, base, saved>>

RECURSIVE Digits(_, _)
Digits(k, b) == IF k = 0 THEN <<>> ELSE Append(Digits(k \div b, b), <<k % b>>)
KeyOf(k) == CASE style = "wide" -> << <<k \div 256, k % 256>> >>
              [] style = "halves" -> << <<k \div 256>>, <<k % 256>> >>
              [] style = "digits" -> Digits(k, base)
              [] style = "deep" -> [i \in 1..k |-> <<((i - 1) % 5) + 1>>]
Before(a, b) == LexSeq(KeyOf(a), KeyOf(b)) < 0
Continues(a, b) == LET x == KeyOf(a)
                       y == KeyOf(b)
                   IN Len(x) >= Len(y) /\ SubSeq(x, 1, Len(y)) = y
InOrder(s) == \A i \in 1..(Len(s) - 1) : Before(s[i], s[i + 1])
(* what is listed: exactly the keys K of the map x, in order, with their values *)
Lists(x, K) == /\ Len(ev.ik) = Cardinality(K) /\ Len(ev.iv) = Len(ev.ik)
               /\ \A i \in 1..Len(ev.ik) : ev.ik[i] \in K /\ ev.iv[i] = x[ev.ik[i]]
               /\ InOrder(ev.ik)
Asked == IF ev.s = 0 THEN m ELSE saved

TInit == l = 1 /\ SMInit /\ style = "" /\ base = 0 /\ saved = Empty
TBegin == /\ Is("begin") /\ m' = Empty /\ its' = <<>> /\ resp' = <<>>
          /\ style' = ev.kind /\ base' = ev.i /\ saved' = Empty
TFill == /\ Is("fill") /\ Fill(FALSE, ev.n, ev.i, ev.j, ev.m, ev.s) /\ resp' = <<ev.old, ev.sum>>
         /\ UNCHANGED <<style, base, saved>>
TDrop == /\ Is("drop") /\ Drop(ev.n, ev.i, ev.j, ev.m) /\ resp' = <<ev.old, ev.sum>>
         /\ UNCHANGED <<style, base, saved>>
TCodec == /\ Is("codec") /\ ev.err = FALSE /\ ev.n = 0 /\ ev.same = TRUE
          /\ saved' = m /\ UNCHANGED <<m, its, resp, style, base>>
TCensus == /\ Is("census") /\ UNCHANGED <<m, its, resp, style, base, saved>>
           /\ \E x \in {Asked} :
                /\ Lists(x, DOMAIN x)
                /\ \A k \in DOMAIN x : k < ev.m
                /\ Len(ev.vals) = ev.m
                /\ \A k \in 0..(ev.m - 1) : ev.vals[k + 1] = IF k \in DOMAIN x THEN x[k] ELSE -1
TBelow == /\ Is("below") /\ UNCHANGED <<m, its, resp, style, base, saved>>
          /\ \E x \in {Asked} : \E K \in {{k \in DOMAIN x : Continues(k, ev.k)}} : Lists(x, K)
TRange == /\ Is("range") /\ UNCHANGED <<m, its, resp, style, base, saved>>
          /\ \E x \in {Asked} : \E K \in {{k \in DOMAIN x : ~Before(k, ev.k) /\ Before(k, ev.v)}} : Lists(x, K)
Spec == TInit /\ [][TBegin \/ TFill \/ TDrop \/ TCodec \/ TCensus \/ TBelow \/ TRange]_tvars
=============================================================================
