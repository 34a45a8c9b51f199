SPECIFICATION Spec
CONSTANT MaxSteps = 7
INVARIANTS Once InOrder Where Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
