----------------------------- MODULE MC_Signing -----------------------------
EXTENDS Signing, TLC
MCalc(x) == x % 2
=============================================================================
