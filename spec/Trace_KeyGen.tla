---------------------------- MODULE Trace_KeyGen ----------------------------
(* Recorded runs of the key generator; after each the folder of every class is  *)
(* listed: name, kind, the public key it loads as, and a digest of its files.    *)
EXTENDS KeyGen, TraceBase
VARIABLE pass       \* pairs made, in order: <<class, name, key, digest, passphrase>>
tvars == <<l, names, pass>>
HexChar == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexOf(b) == FoldLeft(LAMBDA s, x : s \o HexChar[(x \div 16) + 1] \o HexChar[(x % 16) + 1], "", b)
RECURSIVE NoZeros(_)
NoZeros(b) == IF b # <<>> /\ b[1] = 0 THEN NoZeros(Tail(b)) ELSE b
IdOf(x) == HexOf(NoZeros(x))
(* the listing: <<class, name, kind, key, digest>> *)
Listed == {ev.list[i] : i \in 1..Len(ev.list)}
KeyAt(e) == <<e[4], e[5]>>                   \* what is kept of a key: X and digest
Matches(f, e) == /\ e[2] \in DOMAIN f /\ f[e[2]][1] = e[3]
                 /\ e[3] # "other" => Leads(f, e[2]) = IF e[4] = <<>> THEN <<>> ELSE KeyAt(e)
Agrees(f) == /\ Cardinality(Listed) = Len(ev.list)
             /\ \A e \in Listed : Matches(f[e[1]], e)
             /\ \A c \in 1..5 : \A n \in DOMAIN f[c] : \E e \in Listed : e[1] = c /\ e[2] = n
NewOnes == {e \in Listed : e[3] = "key" /\ At(e[1], e[2]) = Absent}
TInit == l = 1 /\ names = Empty /\ pass = <<>>
TBegin == Is("begin") /\ names' = Empty /\ pass' = <<>>
Run(Step(_, _, _, _, _, _, _, _)) ==
  \E e \in NewOnes : /\ e[1] = ev.i /\ e[2] = IdOf(e[4]) /\ Len(e[4]) = 32
                     /\ ~\E j \in 1..Len(pass) : pass[j][3] = e[4]
                     /\ Step(ev.i, ev.alias, ev.flag, ev.b, ev.c, ev.str2, e[2], KeyAt(e))
                     /\ pass' = Append(pass, <<ev.i, e[2], e[4], e[5], ev.b>>)
TRun == /\ Is("pkeygen")
        /\ ev.asked = Asks(ev.i, ev.alias, ev.flag)
        /\ \/ ev.code = 0 /\ Run(Makes)
           \/ ev.code # 0 /\ Refuses(ev.i, ev.alias, ev.flag, ev.b, ev.c, ev.str2) /\ UNCHANGED pass
           \/ ev.code # 0 /\ Run(NoAlias)
        /\ Agrees(names')
(* called with a class there is none of *)
TUsage == /\ Is("usage") /\ ev.code # 0 /\ Agrees(names) /\ UNCHANGED <<names, pass>>
(* the n-th pair made, or the alias, with a secret, or a passphrase typed *)
There(j) == At(pass[j][1], pass[j][2]) = <<"key", <<pass[j][3], pass[j][4]>>>>
(* the pair found under the name of the j-th one: itself, or that of an alias    *)
(* made in its place; 0 if none                                                  *)
Found(j) == LET k == Leads(names[pass[j][1]], pass[j][2])
                S == IF k # <<>> THEN {m \in 1..Len(pass) : pass[m][3] = k[1]} ELSE {}
            IN IF S = {} THEN 0 ELSE CHOOSE m \in S : TRUE
Opens(m, secret) == m # 0 /\ secret = SecretOf(pass[m][5])
TLoad == /\ Is("gload") /\ UNCHANGED <<names, pass>>
         /\ IF ev.n > Len(pass) THEN ev.none = TRUE
            ELSE /\ ev.none = FALSE
                 /\ ev.err = ~Opens(Found(ev.n), ev.c)
                 /\ ~ev.err => ev.x32 = pass[Found(ev.n)][3]
TPrompt == /\ Is("promptload") /\ UNCHANGED <<names, pass>>
           /\ IF ev.n > Len(pass) THEN ev.none = TRUE
              ELSE /\ ev.none = FALSE
                   /\ ev.err = ~(Len(ev.b) >= MinPass /\ Opens(Found(ev.n), SecretOf(ev.b)))
                   /\ ~ev.err => ev.x32 = pass[Found(ev.n)][3]
(* a pair saved with a passphrase that is typed, loaded with one *)
TPromptSave == /\ Is("promptsave") /\ UNCHANGED pass
               /\ ev.err = (Len(ev.c) < MinPass)
               /\ IF ev.err THEN Agrees(names) /\ UNCHANGED names
                  ELSE \E e \in NewOnes : /\ e[1] = ev.i /\ e[2] = ev.str /\ e[4] = ev.x32
                                          /\ names' = [names EXCEPT ![ev.i] = Put(@, ev.str, <<"key", KeyAt(e)>>)]
                                          /\ Agrees(names')
TPromptBack == /\ Is("promptback") /\ UNCHANGED <<names, pass>>
               /\ ev.err = ~(Len(ev.c) >= MinPass /\ Len(ev.d) >= MinPass /\ SecretOf(ev.c) = SecretOf(ev.d))
               /\ ~ev.err => ev.d32 = ev.b
TRemove == /\ Is("gremove") /\ UNCHANGED pass
           /\ IF ev.none THEN (IF ev.n > Len(pass) THEN TRUE ELSE ~There(ev.n)) /\ UNCHANGED names
              ELSE RemoveKey(pass[ev.n][1], pass[ev.n][2])
           /\ Agrees(names')
TOther == /\ Is("gother") /\ UNCHANGED pass
          /\ IF ev.none THEN UNCHANGED names ELSE PlaceOther(ev.i, ev.str)
          /\ Agrees(names')
Spec == TInit /\ [][TBegin \/ TRun \/ TUsage \/ TLoad \/ TPrompt \/ TPromptSave \/ TPromptBack \/ TRemove \/ TOther]_tvars
=============================================================================
