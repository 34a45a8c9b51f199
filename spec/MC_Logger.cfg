SPECIFICATION Spec
CONSTANT MaxSteps = 6
INVARIANTS Once InOrder Where Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
