SPECIFICATION Spec
CONSTANTS
  Alphabet = {0, 1, 2, 17, 34, 65, 100, 128, 192, 255}
  MaxLen = 4
  Starts <- Beginnings
INVARIANTS Agree AgreeTrie Small Local Delimited Canonical Emit
CHECK_DEADLOCK FALSE
