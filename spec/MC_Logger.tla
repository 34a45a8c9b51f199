------------------------------ MODULE MC_Logger ------------------------------
EXTENDS Logger, FiniteSets, TLC, Json
CONSTANT MaxSteps
VARIABLES hist
vars == <<to, lines, blocked, opened, hist>>
Init == LInit /\ hist = <<>>
Did(x) == hist' = Append(hist, x)
Next == /\ Len(hist) < MaxSteps
        /\ \/ ToOut /\ Did(<<"lout">>)
           \/ ToFile /\ Did(<<"lfile">>)
           \/ Line(<<0, Len(hist)>>) /\ Did(<<"line">>)
           \/ Lines(<<<<1, Len(hist)>>, <<2, Len(hist)>>>>, <<<<<<1, Len(hist)>>>>, <<<<2, Len(hist)>>>>>>) /\ Did(<<"many">>)
           \/ Block /\ ~blocked /\ Did(<<"block">>)
           \/ Unblock /\ blocked /\ Did(<<"unblock">>)
           \/ Left(<<9, Len(hist)>>) /\ Did(<<"left">>)
Spec == Init /\ [][Next]_vars
All == lines["start"] \o lines["out"] \o lines["file"]
Rng(s) == {s[k] : k \in 1..Len(s)}
Logged == {<<0, k - 1>> : k \in {j \in 1..Len(hist) : hist[j] = <<"line">>}} \cup
          {<<u, k - 1>> : u \in 1..2, k \in {j \in 1..Len(hist) : hist[j] = <<"many">>}} \cup
          {<<9, k - 1>> : k \in {j \in 1..Len(hist) : hist[j] = <<"left">>}}
Once == Len(All) = Cardinality(Rng(All)) /\ Rng(All) = Logged
InOrder == \A p \in Places : \A i, j \in 1..Len(lines[p]) : i < j => lines[p][i][2] <= lines[p][j][2]
Fails(n) == LET B == {j \in 1..n : hist[j] = <<"block">>}
                U == {j \in 1..n : hist[j] = <<"unblock">>} IN Cardinality(B) > Cardinality(U)
(* the last choice before a line, that did not fail, is where it went *)
RECURSIVE Chosen(_)
Chosen(n) == IF n = 0 THEN "start" ELSE IF hist[n] = <<"lout">> THEN "out"
             ELSE IF hist[n] = <<"lfile">> THEN (IF Fails(n) THEN Chosen(n - 1) ELSE "file") ELSE Chosen(n - 1)
Where == \A p \in Places : \A i \in 1..Len(lines[p]) : lines[p][i][1] # 9 => Chosen(lines[p][i][2]) = p
Kept == [][\A p \in Places : Len(lines'[p]) >= Len(lines[p]) /\ SubSeq(lines'[p], 1, Len(lines[p])) = lines[p]]_vars
Emit == Len(hist) = MaxSteps => PrintT(<<"VF_EMIT", ToJson(hist)>>)
=============================================================================
