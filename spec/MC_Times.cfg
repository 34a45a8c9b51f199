SPECIFICATION Spec
INVARIANTS Consistent Emit
CHECK_DEADLOCK FALSE
