SPECIFICATION Spec
CONSTANT NKinds = 45
INVARIANT Emit
CHECK_DEADLOCK FALSE
