SPECIFICATION Spec
CONSTANT MaxKeys = 3
INVARIANT Right
CHECK_DEADLOCK FALSE
