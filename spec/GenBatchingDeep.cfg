SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxB = 5
INVARIANTS Valid Partial Emit
CHECK_DEADLOCK FALSE
