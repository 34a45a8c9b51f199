SPECIFICATION Spec
INVARIANT Bounded
PROPERTY CopyStable
CHECK_DEADLOCK FALSE
