SPECIFICATION Spec
INVARIANTS HexInverse Tables Product32
CHECK_DEADLOCK FALSE
