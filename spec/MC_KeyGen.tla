----------------------------- MODULE MC_KeyGen -----------------------------
(* Every history of a few runs with one alias, with or without permission, with *)
(* good, short and different passphrases, and removals in between: no run        *)
(* changes what others made except the alias it was allowed to replace; an alias  *)
(* leads to the key of the last run that made it.  Each is printed.               *)
EXTENDS KeyGen, TLC, Json
CONSTANT MaxOps
Good == [i \in 1..9 |-> 65]
Other == [i \in 1..9 |-> 66]
Short == [i \in 1..7 |-> 65]
VARIABLES hist, made
vars == <<names, hist, made>>
Ids == <<"k1", "k2", "k3", "k4">>
Init == names = Empty /\ hist = <<>> /\ made = 0
Pairs == {<<Good, Good>>, <<Good, Other>>, <<Short, Short>>}
Run(c, alias, force, pp, answer) ==
  LET id == Ids[made + 1] k == <<made + 1>>
  IN /\ \/ Makes(c, alias, force, pp[1], pp[2], answer, id, k) /\ made' = made + 1
        \/ Refuses(c, alias, force, pp[1], pp[2], answer) /\ made' = made
        \/ NoAlias(c, alias, force, pp[1], pp[2], answer, id, k) /\ made' = made + 1
     /\ hist' = Append(hist, <<"run", c, alias, force, pp, answer>>)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E alias \in {"", "a", "k1"}, force \in BOOLEAN, pp \in Pairs, answer \in {"y", "n"} : Run(1, alias, force, pp, answer)
           \/ Run(2, "a", FALSE, <<Good, Good>>, "n")
           \/ \E n \in {"k1", "k2"} : RemoveKey(1, n) /\ hist' = Append(hist, <<"remove", 1, n>>) /\ made' = made
           \/ PlaceOther(1, "a") /\ hist' = Append(hist, <<"other", 1, "a">>) /\ made' = made
Spec == Init /\ [][Next]_vars
Keys(c) == {names[c][n][2] : n \in {m \in DOMAIN names[c] : names[c][m][1] = "key"}}
(* every alias leads to a key that is there, or nowhere *)
Linked == \A c \in 1..5 : \A n \in DOMAIN names[c] : names[c][n][1] = "link" => Leads(names[c], n) \in Keys(c) \cup {<<>>}
(* an alias just made leads to the key just made *)
Newest == [][LET h == hist'[Len(hist')]
             IN h[1] = "run" /\ h[3] # "" /\ made' > made /\ At(h[2], h[3])[1] # "key" => Leads(names'[h[2]], h[3]) = <<made'>>]_vars
(* keys stay as they were made, other classes are left alone *)
KeysStay == [][\A c \in 1..5 : \A n \in DOMAIN names[c] :
                 names[c][n][1] = "key" => (n \in DOMAIN names'[c] /\ names'[c][n] = names[c][n])
                                           \/ hist'[Len(hist')][1] = "remove"]_vars
OneClass == [][\E c \in 1..5 : \A d \in 1..5 : d # c => names'[d] = names[d]]_vars
(* without permission an alias stays *)
Asked == [][LET h == hist'[Len(hist')]
            IN h[1] = "run" /\ h[3] # "" /\ ~h[4] /\ h[6] = "n" /\ At(h[2], h[3]) # Absent => names' = names]_vars
Emit == PrintT(<<"VF_EMIT", ToJson(hist)>>)
=============================================================================
