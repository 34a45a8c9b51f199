----------------------------- MODULE MC_Prompts -----------------------------
(* All short inputs, taken by every sequence of questions.                     *)
EXTENDS Prompts, FiniteSets, TLC, Json
CONSTANTS Alphabet, MaxInput
VARIABLES asked,      \* the questions so far
          given       \* and what each answered
vars == <<input, at, asked, given>>
Inputs == UNION {[1..n -> Alphabet] : n \in 0..MaxInput}
Init == input \in Inputs /\ at = 0 /\ asked = <<>> /\ given = <<>>
Next == /\ Len(asked) < 3
        /\ \/ /\ AskText /\ asked' = Append(asked, "text") /\ given' = Append(given, Text)
           \/ \E r \in BOOLEAN : /\ AskPass(r, Asked(r)) /\ asked' = Append(asked, IF r THEN "twice" ELSE "once")
                                 /\ given' = Append(given, Asked(r)[1])
Spec == Init /\ [][Next]_vars

Lines == Cardinality({k \in 1..at : input[k] \in {10, 13}})
(* nothing is taken twice, nothing is skipped *)
Within == at \in 0..Len(input)
Forward == [][at' >= at /\ (at < Len(input) => at' > at)]_vars
(* a question never takes more than a line, nor two for a passphrase typed twice *)
Modest == [][LET n == Len(asked')
                 new == Cardinality({k \in at + 1..at' : input[k] = 10})
             IN asked' # asked => new <= IF asked'[n] = "twice" THEN 2 ELSE 1]_vars
(* questions for text answer with the lines, without the blanks around them *)
RECURSIVE SplitAt(_, _, _)
SplitAt(s, i, n) == IF n = 0 THEN <<>> ELSE <<Trim(SubSeq(s, i + 1, LineEnd(s, i)))>> \o SplitAt(s, LineEnd(s, i), n - 1)
AsLines == (\A k \in 1..Len(asked) : asked[k] = "text") => given = SplitAt(input, 0, Len(asked))
Proper == \A k \in 1..Len(asked) :
            asked[k] # "text" => /\ given[k] = <<>> \/ Len(given[k]) >= MinPass
                                 /\ \A j \in 1..Len(given[k]) : given[k][j] \notin {0, 3, 8, 10, 13, 127}
(* what is shown depends on how many characters there are, not on which *)
Hide(s) == [k \in 1..Len(s) |-> IF s[k] \in {0, 3, 8, 10, 13, 127} THEN s[k] ELSE 97]
Unseen == Typed(input, at, 0, <<>>, <<>>)[4] = Typed(Hide(input), at, 0, <<>>, <<>>)[4]
Emit == asked = <<>> => PrintT(<<"VF_EMIT", ToJson(input)>>)
=============================================================================
