------------------------------ MODULE KeyFiles ------------------------------
(* The files of the key store as texts.  A public file is the hexadecimal text *)
(* of the 32 bytes of X and their check sum; a private file that of a nonce of  *)
(* 12 bytes, the 32 bytes of D sealed with the secret and the nonce, and their   *)
(* check sum.  No nonce is used twice.                                           *)
EXTENDS Aes
VARIABLES files,     \* <<class, id>> -> <<public text, private text>>
          nonces     \* used by saves
kfvars == <<files, nonces>>
NoFiles == [x \in {} |-> <<>>]
KFInit == files = NoFiles /\ nonces = {}
Class == <<"node", "cluster", "universe", "service", "federation">>
PrivName == <<"node_id", "cluster_id", "universe_id", "service_id", "federation_id">>
PubName == <<"node_id.pub", "cluster_id.pub", "universe_id.pub", "service_id.pub", "federation_id.pub">>
PubPath(p) == <<Class[p[1]], p[2], PubName[p[1]]>>
PrivPath(p) == <<Class[p[1]], p[2], PrivName[p[1]]>>

Signed(b) == b \o Crc32(b)
PubText(x) == Hex(Signed(x))
PrivText(secret, nonce, d) == Hex(Signed(nonce \o Seal(secret, nonce, d)))

Bad == <<"err">>
Usable(secret) == Len(secret) \in {16, 24, 32}
(* the bytes of a text without their check sum, if it is theirs *)
Content(t) ==
  IF ~IsHex(t) THEN Bad
  ELSE LET u == Unhex(t) n == Len(u)
       IN IF n < 4 THEN Bad
          ELSE IF Crc32(SubSeq(u, 1, n - 4)) = SubSeq(u, n - 3, n) THEN <<"ok", SubSeq(u, 1, n - 4)>> ELSE Bad
PubOf(t) == LET c == Content(t) IN IF c = Bad THEN Bad ELSE IF Len(c[2]) = 32 THEN <<"key", c[2]>> ELSE Bad
PrivOf(t, secret) ==
  LET c == Content(t)
  IN IF c = Bad THEN Bad
     ELSE IF Len(c[2]) # 60 \/ ~Usable(secret) THEN Bad
     ELSE LET r == Unseal(secret, SubSeq(c[2], 1, 12), SubSeq(c[2], 13, 60))
          IN IF r[1] THEN <<"key", r[2]>> ELSE Bad

At(p) == IF p \in DOMAIN files THEN files[p] ELSE <<<<>>, <<>>>>     \* an empty text does not load
With(p, pub, priv) == [q \in DOMAIN files \cup {p} |-> IF q = p THEN <<pub, priv>> ELSE files[q]]
Save(p, x, d, secret, pub, priv) ==
  /\ PubOf(pub) = <<"key", x>>
  /\ PrivOf(priv, secret) = <<"key", d>>
  /\ LET nonce == SubSeq(Unhex(priv), 1, 12)
     IN nonce \notin nonces /\ nonces' = nonces \cup {nonce}
  /\ files' = With(p, pub, priv)
(* many saves of one key: their nonces are new, and no bit is the same in all  *)
Varied(bs) == \A j \in 1..12, e \in 0..7 : Cardinality({(b[j] \div 2^e) % 2 : b \in bs}) = 2
SaveMany(p, x, d, secret, pub, all) ==
  /\ \A k \in DOMAIN all : IsHex(all[k]) /\ Len(all[k]) = 128
  /\ \E new \in {{SubSeq(Unhex(all[k]), 1, 12) : k \in DOMAIN all}} :
       /\ Cardinality(new) = Len(all) /\ new \cap nonces = {}
       /\ Varied(new)
       /\ nonces' = nonces \cup new
  /\ PubOf(pub) = <<"key", x>> /\ PrivOf(all[Len(all)], secret) = <<"key", d>>
  /\ files' = With(p, pub, all[Len(all)])
Put(p, pub, priv) == files' = With(p, pub, priv) /\ UNCHANGED nonces
=============================================================================
