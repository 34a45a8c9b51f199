SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 64, 127, 128, 32767, 32768, 65535}
INVARIANTS RoundTrip Short NoPrefix Small Emit
CHECK_DEADLOCK FALSE
