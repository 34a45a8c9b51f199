------------------------------- MODULE KeyGen -------------------------------
(* Generating key pairs from the command line.  In the folder of a class every *)
(* name is absent, a key folder, an alias (a link to another name, which may be  *)
(* absent, or an alias again), or something else.  A run asks for permission before an existing    *)
(* alias is replaced, then for a passphrase twice, and then makes one new pair   *)
(* and the alias; or it fails and changes nothing.                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES names      \* class -> (name -> <<"key", key>>, <<"link", name>> or <<"other", <<>>>>)
Absent == <<"absent", <<>>>>
Empty == [c \in 1..5 |-> [n \in {} |-> Absent]]
At(c, n) == IF n \in DOMAIN names[c] THEN names[c][n] ELSE Absent
(* the key a name leads to, <<>> if none (links always lead to later names) *)
RECURSIVE Leads(_, _)
Leads(f, n) == IF n \notin DOMAIN f THEN <<>>
               ELSE IF f[n][1] = "key" THEN f[n][2]
               ELSE IF f[n][1] = "link" THEN Leads(f, f[n][2]) ELSE <<>>
Put(f, n, e) == [m \in DOMAIN f \cup {n} |-> IF m = n THEN e ELSE f[m]]
MinPass == 8
Accepted1(p1, p2) == Len(p1) >= MinPass /\ p1 = p2
(* the secret made of a passphrase: its first 16 bytes, filled with zeros *)
SecretOf(p) == [i \in 1..16 |-> IF i <= Len(p) THEN p[i] ELSE 0]
Yes(answer) == answer \in {"y", "Y"}
Asks(c, alias, force) == alias # "" /\ ~force /\ At(c, alias) # Absent
Allowed(c, alias, force, answer) == Asks(c, alias, force) => Yes(answer)
(* a key folder cannot be turned into an alias *)
Replaceable(c, alias) == alias = "" \/ At(c, alias)[1] # "key"

(* a run that succeeds with the new key k, kept under the name id *)
Makes(c, alias, force, p1, p2, answer, id, k) ==
  /\ Allowed(c, alias, force, answer) /\ Accepted1(p1, p2) /\ Replaceable(c, alias)
  /\ id # alias /\ At(c, id) = Absent
  /\ LET f == Put(names[c], id, <<"key", k>>)
     IN names' = [names EXCEPT ![c] = IF alias = "" THEN f ELSE Put(f, alias, <<"link", id>>)]
(* a run that fails *)
Refuses(c, alias, force, p1, p2, answer) ==
  /\ ~(Allowed(c, alias, force, answer) /\ Accepted1(p1, p2))
  /\ UNCHANGED names
(* a run that made its key and then could not make the alias *)
NoAlias(c, alias, force, p1, p2, answer, id, k) ==
  /\ Allowed(c, alias, force, answer) /\ Accepted1(p1, p2) /\ ~Replaceable(c, alias)
  /\ At(c, id) = Absent
  /\ names' = [names EXCEPT ![c] = Put(@, id, <<"key", k>>)]
(* a key folder is removed: its aliases lead nowhere *)
RemoveKey(c, n) ==
  /\ At(c, n)[1] = "key"
  /\ names' = [names EXCEPT ![c] = [m \in DOMAIN @ \ {n} |-> @[m]]]
PlaceOther(c, n) == At(c, n) = Absent /\ names' = [names EXCEPT ![c] = Put(@, n, <<"other", <<>>>>)]
=============================================================================
