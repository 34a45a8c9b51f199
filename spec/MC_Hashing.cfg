SPECIFICATION Spec
INVARIANTS Injective Compatible
PROPERTY Stable
CHECK_DEADLOCK FALSE
