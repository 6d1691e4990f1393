SPECIFICATION Spec
CONSTANTS Length = 36
INVARIANTS Emit Alone
PROPERTIES Frame
CHECK_DEADLOCK FALSE
