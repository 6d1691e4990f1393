SPECIFICATION Spec
CONSTANTS MaxN = 6
 MaxK = 3
 Coef <- CoefQuick
INVARIANTS Emit
CHECK_DEADLOCK FALSE
