SPECIFICATION Spec
CONSTANT MaxOps = 2
INVARIANTS OnlyWritten Emit
PROPERTY OtherPlaces
CHECK_DEADLOCK FALSE
