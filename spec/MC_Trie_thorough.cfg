SPECIFICATION Spec
CONSTANTS
  Values = {1, 2}
  Long = TRUE
INVARIANTS Agree NoSuperfluous Iteration RoundTrip
VIEW View
ACTION_CONSTRAINT EmitOps
CHECK_DEADLOCK FALSE
