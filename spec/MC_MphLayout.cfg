SPECIFICATION Spec
CONSTANT MaxKeys = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
