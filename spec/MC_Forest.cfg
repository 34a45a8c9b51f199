SPECIFICATION Spec
CONSTANTS
  MaxNodes = 4
  MaxSteps = 6
INVARIANTS Ordered Complete Reached Bounds ReadBack
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
