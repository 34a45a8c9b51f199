---------------------------- MODULE MC_Sessions ----------------------------
EXTENDS Sessions, TLC, Json
Spec == SInit /\ [][SNext]_svars
Emit == Len(order) = Calls * 3 => PrintT(<<"VF_EMIT", ToJson(order)>>)
=============================================================================
