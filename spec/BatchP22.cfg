SPECIFICATION Spec
INVARIANTS SmallEnough Reported
ALIAS Alias
CHECK_DEADLOCK FALSE
