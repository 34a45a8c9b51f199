SPECIFICATION Spec
CONSTANT Count_ = 1500
INVARIANTS Loads Sealed Emit
CHECK_DEADLOCK FALSE
