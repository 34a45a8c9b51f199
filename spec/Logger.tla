------------------------------- MODULE Logger -------------------------------
(* Where log lines go.  Whoever chose last, standard output or the log file of  *)
(* the process, has all lines from then on, each once and in order; what was      *)
(* there stays.  The file may be impossible to open: then nothing changes.         *)
EXTENDS Integers, Sequences
Places == {"start", "out", "file"}
VARIABLES to,        \* where lines go; "start" before anything was chosen
          lines,     \* what each place has
          blocked,   \* the log file cannot be opened
          opened     \* it was
lvars == <<to, lines, blocked, opened>>
LInit == to = "start" /\ lines = [p \in Places |-> <<>>] /\ blocked = FALSE /\ opened = FALSE
ToOut == to' = "out" /\ UNCHANGED <<lines, blocked, opened>>
FileFails == blocked /\ ~opened
ToFile == /\ to' = IF FileFails THEN to ELSE "file"
          /\ opened' = (opened \/ ~FileFails)
          /\ UNCHANGED <<lines, blocked>>
Line(x) == lines' = [lines EXCEPT ![to] = Append(@, x)] /\ UNCHANGED <<to, blocked, opened>>
(* lines of several users at the same time: theirs each in order *)
Merges(s, users) == /\ Len(s) = LET Sum[i \in 0..Len(users)] == IF i = 0 THEN 0 ELSE Sum[i - 1] + Len(users[i]) IN Sum[Len(users)]
                    /\ \A u \in 1..Len(users) : SelectSeq(s, LAMBDA x : x[1] = u) = users[u]
Lines(s, users) == Merges(s, users) /\ lines' = [lines EXCEPT ![to] = @ \o s] /\ UNCHANGED <<to, blocked, opened>>
(* others put something in the way of the log file, or remove it, before it is opened *)
Block == ~opened /\ blocked' = TRUE /\ UNCHANGED <<to, lines, opened>>
Unblock == ~opened /\ blocked' = FALSE /\ UNCHANGED <<to, lines, opened>>
(* an earlier process left lines in it *)
Left(x) == ~opened /\ ~blocked /\ lines' = [lines EXCEPT !["file"] = Append(@, x)] /\ UNCHANGED <<to, blocked, opened>>
=============================================================================
