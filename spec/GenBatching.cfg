SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxB = 4
INVARIANTS Valid Partial Emit
CHECK_DEADLOCK FALSE
