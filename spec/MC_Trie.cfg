SPECIFICATION Spec
CONSTANTS
  Values = {1}
  Long = FALSE
INVARIANTS Agree NoSuperfluous Iteration RoundTrip
VIEW View
ACTION_CONSTRAINT EmitOps
CHECK_DEADLOCK FALSE
