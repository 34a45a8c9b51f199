SPECIFICATION Spec
CONSTANT Limbs = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535}
INVARIANTS RoundTrip Order Emit
CHECK_DEADLOCK FALSE
