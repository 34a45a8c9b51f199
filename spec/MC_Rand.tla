------------------------------- MODULE MC_Rand -------------------------------
(* Drawing from a range with words of W bits: a random word, reduced modulo   *)
(* the size of the range taken without sign, and shifted by the lower bound   *)
(* with wrap-around, is within the bounds, and every number of the range is   *)
(* the result of some word - for signed and unsigned words.  The last two     *)
(* operators show why the reduction must not be made on signed differences.    *)
EXTENDS Ranges, TLC, Json
CONSTANT W
M == 2^W
ToSigned(u) == IF u >= M \div 2 THEN u - M ELSE u
Words == 0..(M - 1)
Draw(r, lo, hi, signed) ==
  LET size == (hi - lo) % M
      u == ((lo % M) + (r % size)) % M
  IN IF signed THEN ToSigned(u) ELSE u
VARIABLES lo, hi, signed
vars == <<lo, hi, signed>>
Init == /\ signed \in BOOLEAN
        /\ lo \in (IF signed THEN -(M \div 2)..(M \div 2 - 1) ELSE Words)
        /\ hi \in (IF signed THEN -(M \div 2)..(M \div 2 - 1) ELSE Words)
        /\ lo < hi
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Within == \A r \in Words : lo <= Draw(r, lo, hi, signed) /\ Draw(r, lo, hi, signed) < hi
Onto == \A x \in lo..(hi - 1) : \E r \in Words : Draw(r, lo, hi, signed) = x
(* the limb arithmetic of Ranges, on one- and two-limb numbers *)
Two(x) == <<x % M, (x * 7919) % 65536>>
ASSUME \A a, b \in 0..(M - 1) :
         /\ AtMost(Two(b), Two(a)) => Plus(Minus(Two(a), Two(b)), Two(b)) = Two(a)
         /\ Below(Two(a), Two(b)) => /\ Eighth(Two(a), Two(b), 0) = Two(a)
                                     /\ \A k \in 0..7 : InRange(Eighth(Two(a), Two(b), k), Two(a), Two(b))
Emit == PrintT(<<"VF_EMIT", ToJson(<<signed, lo, hi>>)>>)
=============================================================================
