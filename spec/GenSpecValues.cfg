SPECIFICATION Spec
CONSTANTS Length = 30
INVARIANTS Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
