SPECIFICATION Spec
CONSTANTS MaxN = 12
 MaxK = 4
 Coef <- CoefDeep
INVARIANTS Emit
CHECK_DEADLOCK FALSE
