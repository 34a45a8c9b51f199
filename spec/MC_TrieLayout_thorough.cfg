SPECIFICATION Spec
CONSTANT Long = TRUE
INVARIANT Right
CHECK_DEADLOCK FALSE
