------------------------------ MODULE Prompts ------------------------------
(* Questions asked on the terminal, or answered by a file or pipe.  A question  *)
(* takes one line of the input, and what follows is there for the next one.      *)
(* A passphrase is typed unseen: each character shows as an asterisk, which a     *)
(* deletion takes back; it ends where the line does, or at a carriage return.      *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS MinPass,     \* bytes of a passphrase, at least
          MaxKeys      \* keys struck for one passphrase, at most
VARIABLES input,       \* what was and will be typed
          at           \* how much of it was taken
pvars == <<input, at>>

Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimLeft(_), TrimRight(_)
TrimLeft(s) == IF s # <<>> /\ s[1] \in Blank THEN TrimLeft(Tail(s)) ELSE s
TrimRight(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimRight(TrimLeft(s))

(* end of the line that begins after position i: its last byte *)
LineEnd(s, i) == LET E == {k \in i + 1..Len(s) : s[k] = 10} IN IF E = {} THEN Len(s) ELSE CHOOSE k \in E : \A j \in E : k <= j
Text == Trim(SubSeq(input, at + 1, LineEnd(input, at)))
AskText == at' = LineEnd(input, at) /\ UNCHANGED input

(* typing from position i on: <<passphrase, position after it, fault, shown>> *)
Star == <<42>>
Gone == <<8, 32, 8>>
RECURSIVE Typed(_, _, _, _, _)
Typed(s, i, n, pass, shown) ==
  IF n > MaxKeys THEN <<pass, i, "long", shown>>
  ELSE IF i >= Len(s) THEN <<pass, i, "end", shown>>
  ELSE LET c == s[i + 1] IN
       CASE c \in {8, 127} -> IF pass = <<>> THEN Typed(s, i + 1, n + 1, pass, shown)
                              ELSE Typed(s, i + 1, n + 1, SubSeq(pass, 1, Len(pass) - 1), shown \o Gone)
         [] c \in {10, 13} -> <<pass, i + 1, "", shown>>
         [] c = 3          -> <<pass, i + 1, "stop", shown>>
         [] c = 0          -> Typed(s, i + 1, n + 1, pass, shown)
         [] OTHER          -> Typed(s, i + 1, n + 1, Append(pass, c), shown \o Star)
(* answer of a passphrase prompt: <<passphrase or <<>>, refused, position, shown by each entry>> *)
Once(i) == Typed(input, i, 0, <<>>, <<>>)
Asked(repeat) ==
  LET a == Once(at) IN
  IF a[3] # "" \/ Len(a[1]) < MinPass THEN <<<<>>, TRUE, a[2], <<a[4]>>>>
  ELSE IF ~repeat THEN <<a[1], FALSE, a[2], <<a[4]>>>>
  ELSE LET b == Once(a[2]) IN
       IF b[3] # "" \/ b[1] # a[1] THEN <<<<>>, TRUE, b[2], <<a[4], b[4]>>>>
       ELSE <<a[1], FALSE, b[2], <<a[4], b[4]>>>>
AskPass(repeat, answer) == answer = Asked(repeat) /\ at' = answer[3] /\ UNCHANGED input
=============================================================================
