--------------------------- MODULE Trace_Logger ---------------------------
(* Recorded log calls of a process each; fresh: what every place has got since   *)
(* the call before.  A line begins with the time, to the microsecond in the file,  *)
(* and tells the source line, once a place was chosen.                              *)
EXTENDS Logger, TraceBase
tvars == <<l, to, lines, blocked, opened>>
TInit == l = 1 /\ LInit
TBegin == Is("begin") /\ to' = "start" /\ lines' = [p \in Places |-> <<>>] /\ blocked' = FALSE /\ opened' = FALSE
Fresh(p) == ev.fresh[CASE p = "start" -> 1 [] p = "out" -> 2 [] p = "file" -> 3]
Only(p) == ev.kept /\ \A q \in Places \ {p} : Fresh(q) = <<>>
Quiet == ev.kept /\ \A q \in Places : Fresh(q) = <<>>

Digit(c) == c \in 48..57
RECURSIVE Before(_, _, _)
Before(a, b, i) == \/ i > Len(a)
                   \/ IF a[i] = b[i] THEN Before(a, b, i + 1) ELSE a[i] < b[i]
Timely(t) == Len(t) = 19 /\ Before(ev.t0, t, 1) /\ Before(t, ev.t1, 1)
Source == <<108, 111, 103, 103, 101, 114, 46, 103, 111, 58>>       \* "logger.go:"
(* length of the beginning of line x in place p, if it is one; else -1 *)
Header(x, p) ==
  IF Len(x) < 20 THEN -1
  ELSE IF ~Timely(SubSeq(x, 1, 19)) THEN -1
  ELSE LET micro == IF p # "file" THEN 0
                    ELSE IF Len(x) > 26 /\ x[20] = 46 /\ \A i \in 21..26 : Digit(x[i]) THEN 7 ELSE -1
           n == 19 + micro + 1
       IN IF micro = -1 \/ Len(x) < n THEN -1
          ELSE IF x[n] # 32 THEN -1
          ELSE IF p = "start" THEN n
          ELSE LET after == {k \in n + 12..n + 16 :
                                  /\ k <= Len(x)
                                  /\ SubSeq(x, n + 1, n + 10) = Source
                                  /\ \A j \in n + 11..k - 2 : Digit(x[j])
                                  /\ x[k - 1] = 58 /\ x[k] = 32}
               IN IF after = {} THEN -1 ELSE CHOOSE k \in after : TRUE
Text(x, p) == SubSeq(x, Header(x, p) + 1, Len(x))
Ended(t) == IF t # <<>> /\ t[Len(t)] = 10 THEN t ELSE Append(t, 10)
RECURSIVE Split(_)
Split(s) == IF s = <<>> THEN <<>>
            ELSE LET E == {k \in 1..Len(s) : s[k] = 10}
                     e == IF E = {} THEN Len(s) ELSE CHOOSE k \in E : \A j \in E : k <= j
                 IN <<SubSeq(s, 1, e)>> \o Split(SubSeq(s, e + 1, Len(s)))

TOut == Is("lout") /\ ToOut /\ ev.err = FALSE /\ Quiet
TFile == Is("lfile") /\ ToFile /\ ev.err = FileFails /\ Quiet
TLine == /\ Is("line") /\ Only(to)
         /\ Header(Fresh(to), to) # -1
         /\ Text(Fresh(to), to) = Ended(ev.b)
         /\ Line(<<0, l>>)
Pairs(s) == [i \in 1..Len(s) |-> LET t == Text(s[i], to) IN IF Len(t) = 3 THEN <<t[1] - 96, t[2] - 96>> ELSE <<0, 0>>]
TMany == /\ Is("many") /\ Only(to)
         /\ \E s \in {Split(Fresh(to))} :
              /\ \A i \in 1..Len(s) : Header(s[i], to) # -1
              /\ Lines(Pairs(s), [u \in 1..ev.n |-> [i \in 1..ev.m |-> <<u, i>>]])
TBlock == Is("block") /\ Block /\ Quiet
TUnblock == Is("unblock") /\ Unblock /\ Quiet
TLeft == Is("left") /\ Left(<<9, l>>) /\ Quiet
Spec == TInit /\ [][TBegin \/ TOut \/ TFile \/ TLine \/ TMany \/ TBlock \/ TUnblock \/ TLeft]_tvars
=============================================================================
