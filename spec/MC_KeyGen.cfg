SPECIFICATION Spec
CONSTANT MaxOps = 3
INVARIANTS Linked Emit
PROPERTIES KeysStay OneClass Asked Newest
CHECK_DEADLOCK FALSE
