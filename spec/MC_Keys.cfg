SPECIFICATION Spec
CONSTANT MaxSubs = 2
INVARIANT Antisymmetric
INVARIANT Emit
CHECK_DEADLOCK FALSE
