SPECIFICATION Spec
CONSTANTS Length = 30
INVARIANTS Emit Tiling
PROPERTIES Frame
CHECK_DEADLOCK FALSE
