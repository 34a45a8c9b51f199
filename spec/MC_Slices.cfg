SPECIFICATION Spec
INVARIANTS Antisymmetric Emit
CHECK_DEADLOCK FALSE
