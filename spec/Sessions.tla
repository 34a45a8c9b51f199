------------------------------ MODULE Sessions ------------------------------
(* Users of the library side by side.  Each has objects of its own, or only    *)
(* reads objects that all of them have.  A call takes its time: it looks at     *)
(* its object, works, and answers later, while calls of others go on.  Whatever *)
(* the order, everyone sees what it would see alone.  So the record of each      *)
(* session by itself is a behaviour of the specification of its objects, which    *)
(* is how the records are judged: by the trace specifications of the components.    *)
EXTENDS Naturals, Sequences
CONSTANTS Users, Writers, Calls
VARIABLES own,       \* the objects of the writers, here lists of numbers
          work,      \* of each call under way: what it was asked and what it looked at; <<>> if there is none
          said,      \* answers to each
          order      \* whose calls were answered
svars == <<own, work, said, order>>
Common == <<7, 8>>                              \* what the others read
SInit == /\ own = [u \in Users |-> <<>>] /\ work = [u \in Users |-> <<>>]
         /\ said = [u \in Users |-> <<>>] /\ order = <<>>
Object(u) == IF u \in Writers THEN own[u] ELSE Common
Asked(u) == Len(said[u]) + 10 * u
Result(arg, obj) == <<arg, Len(obj), obj>>      \* tells the object and the argument
After(arg, obj) == Append(obj, arg)

Begin(u) == /\ work[u] = <<>> /\ Len(said[u]) < Calls
            /\ work' = [work EXCEPT ![u] = <<Asked(u), Object(u)>>]
            /\ UNCHANGED <<own, said, order>>
End(u) == /\ work[u] # <<>>
          /\ said' = [said EXCEPT ![u] = Append(@, Result(work[u][1], work[u][2]))]
          /\ own' = IF u \in Writers THEN [own EXCEPT ![u] = After(work[u][1], work[u][2])] ELSE own
          /\ work' = [work EXCEPT ![u] = <<>>]
          /\ order' = Append(order, u)
SNext == \E u \in Users : Begin(u) \/ End(u)

RECURSIVE Alone(_, _, _)
Alone(u, n, obj) ==                             \* n calls of u with nobody else
  IF n = 0 THEN <<>>
  ELSE LET before == Alone(u, n - 1, obj)
           now == IF u \in Writers THEN [k \in 1..n - 1 |-> 10 * u + k - 1] ELSE obj
       IN Append(before, Result(10 * u + n - 1, now))
AsAlone == \A u \in Users : said[u] = Alone(u, Len(said[u]), Common)
=============================================================================
