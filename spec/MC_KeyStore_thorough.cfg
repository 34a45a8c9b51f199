SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS OnlyWritten Emit
PROPERTY OtherPlaces
CHECK_DEADLOCK FALSE
