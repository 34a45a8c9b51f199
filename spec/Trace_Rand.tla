----------------------------- MODULE Trace_Rand -----------------------------
(* Recorded draws: every one within the bounds; small ranges are covered      *)
(* completely, large ones in each eighth and with both values of every low    *)
(* bit; many draws meet every value of each low byte (the number of draws      *)
(* makes missing one practically impossible).                                  *)
EXTENDS Ranges, TraceBase
(* any two of the bits take all four values *)
Independent(B) == \A b \in B : \A c \in B : b < c =>
                    \A v \in {0, 1} : \A w \in {0, 1} :
                       \E i \in DOMAIN ev.some : Bit(ev.some[i], b) = v /\ Bit(ev.some[i], c) = w
TInit == l = 1
TBegin == Is("begin")
TDraw == /\ Is("draw")
         /\ InRange(ev.min, ev.l, ev.l2) /\ InRange(ev.max, ev.l, ev.l2)
         /\ \A i \in DOMAIN ev.some : InRange(ev.some[i], ev.l, ev.l2)
         /\ LET size == Minus(ev.l2, ev.l)
                n == size[Len(size)]
                full == IsSmall(size) /\ n * 40 <= ev.n
            IN /\ full => ev.distinct = n
               /\ (~IsSmall(size) \/ n >= 64) =>
                    /\ \A k \in 0..7 : \E i \in DOMAIN ev.some :
                          /\ AtMost(Eighth(ev.l, ev.l2, k), ev.some[i])
                          /\ k < 7 => Below(ev.some[i], Eighth(ev.l, ev.l2, k + 1))
                    /\ \A b \in 0..(16 * Len(size) - 1) : Reaches(size, b + 3) =>
                          \A v \in {0, 1} : \E i \in DOMAIN ev.some : Bit(ev.some[i], b) = v
                    /\ ev.n >= 7000 => \A p \in DOMAIN ev.bytes : Reaches(size, 8 * p + 4) => ev.bytes[p] = 256
                    /\ Independent({b \in 0..(16 * Len(size) - 1) : Reaches(size, b + 4)})
(* draws from a whole type: all values of up to 16 bits occur; of wider types *)
(* each bit takes both values, each eighth is met, and hardly any repeats     *)
Bits(kind) == CASE kind \in {"int8", "uint8"} -> 8 [] kind \in {"int16", "uint16"} -> 16
                [] kind \in {"int32", "uint32"} -> 32 [] OTHER -> 64
TAny == /\ Is("any")
        /\ LET w == Bits(ev.kind)
           IN /\ \A b \in 0..(w - 1) : \A v \in {0, 1} : \E i \in DOMAIN ev.some : Bit(ev.some[i], b) = v
              /\ Independent(0..(w - 1))
              /\ \A e \in 0..7 : \E i \in DOMAIN ev.some :
                    4 * Bit(ev.some[i], w - 1) + 2 * Bit(ev.some[i], w - 2) + Bit(ev.some[i], w - 3) = e
              /\ w = 8 /\ ev.n >= 12000 => ev.distinct = 256
              /\ w = 16 /\ ev.n >= 3000000 => ev.distinct = 65536
              /\ ev.n >= 7000 => \A p \in DOMAIN ev.bytes : ev.bytes[p] = (IF p <= w \div 8 THEN 256 ELSE 1)
              /\ w > 16 /\ ev.n <= 300 => ev.distinct >= ev.n - 3
Spec == TInit /\ [][TBegin \/ TDraw \/ TAny]_l
=============================================================================
