SPECIFICATION Spec
CONSTANT MaxKeys = 2
INVARIANTS MemoOnlyOthers Determined Emit
PROPERTY Fixed
CHECK_DEADLOCK FALSE
