SPECIFICATION Spec
CONSTANT MaxKeys = 3
INVARIANTS MemoOnlyOthers Determined Emit
PROPERTY Fixed
CHECK_DEADLOCK FALSE
