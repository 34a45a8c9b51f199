---------------------------- MODULE MC_KeyFiles ----------------------------
(* Texts load as the keys they were made of, with no other secret, and not when *)
(* a byte is altered; each is printed as a file to be loaded by the real code.   *)
EXTENDS KeyFiles, Json
CONSTANT Count_
VARIABLE n
Init == n \in 1..Count_
Next == UNCHANGED <<n, files, nonces>>
Spec == Init /\ KFInit /\ [][Next]_<<n, files, nonces>>
Some(len, a, b) == [i \in 1..len |-> (a * i * i + b * i + n * (i % 7) + n) % 256]
Secret == TLCEval(IF n % 11 = 0 THEN Zeros(16) ELSE Some(<<16, 24, 32>>[(n % 3) + 1], 3, n))
Nonce == TLCEval(IF n % 13 = 0 THEN Zeros(12) ELSE Some(12, n, 5))
D == TLCEval(LET z == <<0, 0, 0, 1, 2, 16, 31>>[(n % 7) + 1]      \* leading zeros; the first byte is at most 127
             IN Zeros(z) \o [i \in 1..(32 - z) |-> (Some(32, 7, n)[i] % 127) + 1])
Text == TLCEval(PrivText(Secret, Nonce, D))
Altered(t, k) == [t EXCEPT ![k] = HexDigit((HexValue(@) + 1 + (n % 15)) % 16)]
OtherSecret == [Secret EXCEPT ![(n % Len(Secret)) + 1] = @ ^^ (2^(n % 8))]
Loads == /\ PrivOf(Text, Secret) = <<"key", D>>
         /\ PrivOf(Text, OtherSecret) = Bad
         /\ PubOf(PubText(D)) = <<"key", D>>
         /\ LET k == ((n * 37) % Len(Text)) + 1 IN PrivOf(Altered(Text, k), Secret) = Bad
         /\ LET k == ((n * 37) % 72) + 1 IN PubOf(Altered(PubText(D), k)) = Bad
(* the tag refuses what a check sum would not: an altered text with its own     *)
Sealed == LET u == Unhex(Text)
              v == [SubSeq(u, 1, 60) EXCEPT ![(n % 60) + 1] = @ ^^ (2^(n % 8))]
          IN PrivOf(Hex(Signed(v)), Secret) = Bad
Emit == PrintT(<<"VF_EMIT", ToJson(<<Secret, Nonce, D, Text>>)>>)
=============================================================================
