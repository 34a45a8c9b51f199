----------------------------- MODULE MC_KeyStore -----------------------------
(* Saves in steps, with crashes at every point: whatever happens, loading     *)
(* gives an error or a key that some save of that place wrote completely, with *)
(* its secret; other places are never touched; each behaviour's kind is        *)
(* printed as a script.                                                        *)
EXTENDS KeyStore, TLC, Json
CONSTANT MaxOps
Places == {1, 2}
Pairs == {1, 2}                                 \* x = d = the number of the pair
S1 == [i \in 1..16 |-> 1]
S2 == [i \in 1..16 |-> 2]
Short == <<1, 2, 3>>
Secrets == {S1, S2, Short}
VARIABLES saving,       \* <<place, pair, secret, step>> or <<>>
          wrote,        \* what saves have written: <<place, pair, secret>>
          hist          \* the script
vars == <<pubf, privf, ids, saving, wrote, hist>>
Name(s) == IF s = S1 THEN 1 ELSE IF s = S2 THEN 2 ELSE 3
Init == KSInit /\ saving = <<>> /\ wrote = {} /\ hist = <<>>
Full == Len(hist) >= MaxOps
Begin(p, k, s) == /\ saving = <<>> /\ ~Full /\ ~Refuses(p, s)
                  /\ saving' = <<p, k, s, 1>> /\ hist' = hist
                  /\ privf' = Set(privf, p, BadF) /\ UNCHANGED <<pubf, ids, wrote>>
Step == /\ saving # <<>>
        /\ LET p == saving[1]
               k == saving[2]
               s == saving[3]
           IN CASE saving[4] = 1 -> /\ privf' = Set(privf, p, SecretF(k, s))
                                    /\ saving' = <<p, k, s, 2>> /\ UNCHANGED <<pubf, ids, wrote, hist>>
                [] saving[4] = 2 -> /\ pubf' = Set(pubf, p, BadF)
                                    /\ saving' = <<p, k, s, 3>> /\ UNCHANGED <<privf, ids, wrote, hist>>
                [] saving[4] = 3 -> /\ pubf' = Set(pubf, p, KeyF(k)) /\ ids' = ids \cup {p}
                                    /\ saving' = <<>> /\ wrote' = wrote \cup {<<p, k, s>>}
                                    /\ hist' = Append(hist, <<"save", p, k, Name(s)>>)
                                    /\ UNCHANGED privf
Crash == /\ saving # <<>>
         /\ hist' = Append(hist, <<"crash", saving[1], saving[2], Name(saving[3]), saving[4]>>)
         /\ wrote' = wrote \cup {<<saving[1], saving[2], saving[3]>>}
         /\ saving' = <<>> /\ UNCHANGED ksvars
Refused(p, k, s) == /\ saving = <<>> /\ ~Full /\ Refuses(p, s) /\ Save(p, k, k, s)
                    /\ hist' = Append(hist, <<"save", p, k, Name(s)>>) /\ UNCHANGED <<saving, wrote>>
Block(p) == /\ saving = <<>> /\ ~Full
            /\ \/ BlockPub(p) /\ hist' = Append(hist, <<"block", p, 1>>)
               \/ BlockPriv(p) /\ hist' = Append(hist, <<"block", p, 2>>)
               \/ BlockBoth(p) /\ hist' = Append(hist, <<"block", p, 3>>)
               \/ (Blocked(PubAt(p)) \/ Blocked(PrivAt(p))) /\ Unblock(p) /\ hist' = Append(hist, <<"block", p, 4>>)
            /\ UNCHANGED <<saving, wrote>>
Damage(p) == /\ saving = <<>> /\ ~Full
             /\ \/ DamagePub(p) /\ hist' = Append(hist, <<"harm", p, 1>>)
                \/ DamagePriv(p) /\ hist' = Append(hist, <<"harm", p, 2>>)
                \/ Whole(PubAt(p)) /\ RemovePub(p) /\ hist' = Append(hist, <<"rm", p, 1>>)
                \/ Whole(PrivAt(p)) /\ RemovePriv(p) /\ hist' = Append(hist, <<"rm", p, 2>>)
             /\ UNCHANGED <<saving, wrote>>
Next == \/ \E p \in Places, k \in Pairs : \E s \in Secrets : Refused(p, k, s) \/ Begin(p, k, s)
        \/ \E p \in Places : Damage(p) \/ Block(p)
        \/ Step \/ Crash
Spec == Init /\ [][Next]_vars
Current(p, k, s) == saving # <<>> /\ saving[1] = p /\ saving[2] = k /\ saving[3] = s
OnlyWritten == \A p \in Places :
  /\ LoadPub(p) # Err => \E s \in Secrets : <<p, LoadPub(p)[2], s>> \in wrote
  /\ \A s \in Secrets : LoadPriv(p, s) # Err =>
       <<p, LoadPriv(p, s)[2], s>> \in wrote \/ Current(p, LoadPriv(p, s)[2], s)
OtherPlaces == [][\A p, q \in Places : (p # q /\ PrivAt(p)' # PrivAt(p)) =>
                    /\ PubAt(q)' = PubAt(q) /\ PrivAt(q)' = PrivAt(q)]_vars
Emit == saving = <<>> /\ Full => PrintT(<<"VF_EMIT", ToJson(hist)>>)
=============================================================================
