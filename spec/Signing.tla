------------------------------- MODULE Signing -------------------------------
(* Signing with keys of which only the X coordinate is stored.  Every X has   *)
(* two points on the curve, of opposite sign; a private key belongs to one of  *)
(* them.  A generated key is replaced by its negative when its point is not    *)
(* the one calculated from X.  A signature verifies exactly with the point it  *)
(* was made for, for its digest, unaltered.                                    *)
EXTENDS Integers, FiniteSets
CONSTANTS Slots, Xs, Digests, CalcSign(_)   \* sign of the point calculated from X
VARIABLES priv,     \* slot -> <<x, sign>> of the private key, or <<0, 0>>
          pub,      \* slot -> x stored, or 0
          sigs      \* signatures made: <<slot, x, sign, digest>>
vars == <<priv, pub, sigs>>
None == <<0, 0>>
Init == priv = [s \in Slots |-> None] /\ pub = [s \in Slots |-> 0] /\ sigs = {}
Generate(s) == \E x \in Xs, sg \in {0, 1} :
  /\ priv[s] = None
  /\ \A t \in Slots : pub[t] # x                       \* fresh
  /\ priv' = [priv EXCEPT ![s] = IF sg = CalcSign(x) THEN <<x, sg>> ELSE <<x, 1 - sg>>]
  /\ pub' = [pub EXCEPT ![s] = x]
  /\ UNCHANGED sigs
Reload(s) == priv[s] # None /\ UNCHANGED vars           \* D determines the point
Sign(s, d) == /\ priv[s] # None
              /\ sigs' = sigs \cup {<<s, priv[s][1], priv[s][2], d>>}
              /\ UNCHANGED <<priv, pub>>
Next == \E s \in Slots : Generate(s) \/ Reload(s) \/ \E d \in Digests : Sign(s, d)
Spec == Init /\ [][Next]_vars
(* verification with the public key of slot s *)
Verifies(s, d, g) == pub[s] # 0 /\ <<pub[s], CalcSign(pub[s])>> = <<g[2], g[3]>> /\ d = g[4]
Exactly == \A g \in sigs, s \in Slots, d \in Digests : Verifies(s, d, g) <=> (s = g[1] /\ d = g[4])
=============================================================================
