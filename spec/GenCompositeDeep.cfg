SPECIFICATION Spec
CONSTANTS MaxR = 5 NAng = 4
INVARIANTS Emit Tiles Counted UsedOnce SingleIsProduct SplitPermutes
CHECK_DEADLOCK FALSE
