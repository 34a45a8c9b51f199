SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 17, 65, 100, 128, 255}
  MaxLen = 3
  Starts <- Beginnings
INVARIANTS Agree AgreeTrie Small Local Delimited Canonical Emit
CHECK_DEADLOCK FALSE
