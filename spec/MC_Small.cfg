SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 32767, 32768, 65535}
INVARIANTS Ordered Emit
CHECK_DEADLOCK FALSE
