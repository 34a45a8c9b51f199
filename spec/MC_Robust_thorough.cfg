SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 3, 17, 34, 65, 100, 128, 192, 255}
  MaxLen = 4
INVARIANTS Small Local Delimited Emit
CHECK_DEADLOCK FALSE
