SPECIFICATION Spec
CONSTANTS
  MinPass = 2
  MaxKeys = 6
  Alphabet = {97, 98, 32, 10, 13, 127}
  MaxInput = 6
INVARIANTS Emit Within AsLines Proper Unseen
PROPERTIES Forward Modest
CHECK_DEADLOCK FALSE
