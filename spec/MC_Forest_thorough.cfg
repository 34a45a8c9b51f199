SPECIFICATION Spec
CONSTANTS
  MaxNodes = 5
  MaxSteps = 7
INVARIANTS Ordered Complete Reached Bounds ReadBack
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
