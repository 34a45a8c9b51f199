SPECIFICATION Spec
CONSTANTS
  MinCap = 10
  LfNum = 1
  LfDen = 2
  MuNum = 6
  MuDen = 5
  Emit = TRUE
INVARIANTS Placed Contents SizeInv
ACTION_CONSTRAINT EmitOps
VIEW View
CHECK_DEADLOCK FALSE
