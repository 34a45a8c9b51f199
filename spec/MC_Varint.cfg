SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 127, 32768, 65535}
INVARIANTS RoundTrip Short NoPrefix Small Emit
CHECK_DEADLOCK FALSE
