SPECIFICATION Spec
CONSTANT Long = FALSE
INVARIANT Right
CHECK_DEADLOCK FALSE
