SPECIFICATION Spec
CONSTANTS MaxR = 4 NAng = 3
INVARIANTS Emit Tiles Counted UsedOnce SingleIsProduct SplitPermutes
CHECK_DEADLOCK FALSE
