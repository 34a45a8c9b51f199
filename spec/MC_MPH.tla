------------------------------- MODULE MC_MPH -------------------------------
EXTENDS HashDisplace, TLC
CONSTANT N
Pow2(n) == CHOOSE p \in {1, 2, 4, 8, 16} : p >= n /\ (p = 1 \/ p \div 2 < n)
MKeys == 0..(N - 1)
MBuckets == 0..1
MSlots == 0..(Pow2(N) - 1)
=============================================================================
