SPECIFICATION Spec
CONSTANT Count_ = 60
INVARIANTS Loads Sealed Emit
CHECK_DEADLOCK FALSE
