SPECIFICATION Spec
CONSTANT W = 5
INVARIANTS Within Onto Emit
CHECK_DEADLOCK FALSE
