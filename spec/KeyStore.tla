------------------------------ MODULE KeyStore ------------------------------
(* The key store: for every class and id a public and a private file, each    *)
(* absent, complete (a key; a private one also its secret), damaged or blocked *)
(* (a folder stands in its place, or a file in that of the folder of both).  A *)
(* save writes the private file, then the public one; a write passes through a *)
(* damaged file, and a crash may leave any state a save passes through.  A     *)
(* save that cannot write both files is refused and leaves both as they were.  *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLES pubf, privf,      \* <<class, id>> -> file
          ids               \* places that were used
ksvars == <<pubf, privf, ids>>
AbsentF == <<"absent">>
BadF == <<"bad">>
FolderF == <<"folder">>     \* a folder in place of the file
OffF == <<"off">>           \* a file in place of the folder
KeyF(k) == <<"key", k>>
SecretF(k, secret) == <<"key", k, secret>>
EmptyF == [x \in {} |-> AbsentF]
KSInit == pubf = EmptyF /\ privf = EmptyF /\ ids = {}
PubAt(p) == IF p \in DOMAIN pubf THEN pubf[p] ELSE AbsentF
PrivAt(p) == IF p \in DOMAIN privf THEN privf[p] ELSE AbsentF
Set(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Usable(secret) == Len(secret) \in {16, 24, 32}
Blocked(file) == file \in {FolderF, OffF}
Exists(file) == file \notin {AbsentF, OffF}
Refuses(p, secret) == ~Usable(secret) \/ Blocked(PubAt(p)) \/ Blocked(PrivAt(p))

Save(p, x, d, secret) ==
  IF ~Refuses(p, secret)
  THEN pubf' = Set(pubf, p, KeyF(x)) /\ privf' = Set(privf, p, SecretF(d, secret)) /\ ids' = ids \cup {p}
  ELSE UNCHANGED ksvars
(* results: <<"key", k>> or <<"err">> *)
Err == <<"err">>
LoadPub(p) == IF PubAt(p)[1] = "key" THEN PubAt(p) ELSE Err
LoadPriv(p, secret) == LET f == PrivAt(p)
                       IN IF f[1] = "key" /\ f[3] = secret THEN KeyF(f[2]) ELSE Err
Whole(file) == file # AbsentF /\ ~Blocked(file)
DamagePub(p) == Whole(PubAt(p)) /\ pubf' = Set(pubf, p, BadF) /\ UNCHANGED <<privf, ids>>
DamagePriv(p) == Whole(PrivAt(p)) /\ privf' = Set(privf, p, BadF) /\ UNCHANGED <<pubf, ids>>
RemovePub(p) == pubf' = Set(pubf, p, AbsentF) /\ UNCHANGED <<privf, ids>>
RemovePriv(p) == privf' = Set(privf, p, AbsentF) /\ UNCHANGED <<pubf, ids>>
BlockPub(p) == PubAt(p) # OffF /\ pubf' = Set(pubf, p, FolderF) /\ UNCHANGED <<privf, ids>>
BlockPriv(p) == PrivAt(p) # OffF /\ privf' = Set(privf, p, FolderF) /\ UNCHANGED <<pubf, ids>>
BlockBoth(p) == pubf' = Set(pubf, p, OffF) /\ privf' = Set(privf, p, OffF) /\ UNCHANGED ids
Unblock(p) == LET Freed(file) == IF Blocked(file) THEN AbsentF ELSE file
              IN pubf' = Set(pubf, p, Freed(PubAt(p))) /\ privf' = Set(privf, p, Freed(PrivAt(p))) /\ UNCHANGED ids
=============================================================================
