SPECIFICATION Spec
CONSTANT W = 6
INVARIANTS Within Onto Emit
CHECK_DEADLOCK FALSE
