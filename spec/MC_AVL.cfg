SPECIFICATION Spec
CONSTANTS
  MaxKey = 6
  Values = {0}
  Emit = TRUE
INVARIANTS Agree Ordered BalancedInv Contents HeightBound Iteration
ACTION_CONSTRAINT EmitOps
VIEW View
CHECK_DEADLOCK FALSE
