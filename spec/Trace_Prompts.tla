--------------------------- MODULE Trace_Prompts ---------------------------
(* Recorded questions: the answers, what was shown, how much of the input was   *)
(* taken where that can be told.                                                *)
EXTENDS Prompts, TraceBase
tvars == <<l, input, at>>
TInit == l = 1 /\ input = <<>> /\ at = 0
TBegin == Is("begin") /\ input' = ev.b /\ at' = 0
Enter == <<69, 110, 116, 101, 114, 32, 80, 97, 115, 115, 112, 104, 114, 97, 115, 101, 58, 32>>          \* "Enter Passphrase: "
Again == <<82, 101, 45, 69, 110, 116, 101, 114, 32, 80, 97, 115, 115, 112, 104, 114, 97, 115, 101, 58, 32>>          \* "Re-Enter Passphrase: "
Colon == <<32, 58, 32>>
At == ev.pos \in {-1, at'}
TText == Is("text") /\ ev.r = Text /\ AskText /\ At /\ ev.shown = ev.b \o Colon
TPass == /\ Is("pass")
         /\ \E a \in {Asked(ev.flag)} :
              /\ AskPass(ev.flag, a) /\ At
              /\ ev.err = a[2] /\ ev.r = a[1]
              /\ ev.shown = Enter \o a[4][1] \o (IF Len(a[4]) = 2 THEN Again \o a[4][2] ELSE <<>>)
Spec == TInit /\ [][TBegin \/ TText \/ TPass]_tvars
=============================================================================
