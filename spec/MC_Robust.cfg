SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 17, 65, 100, 128, 255}
  MaxLen = 4
INVARIANTS Small Local Delimited Emit
CHECK_DEADLOCK FALSE
