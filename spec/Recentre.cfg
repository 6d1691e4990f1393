SPECIFICATION Spec
INVARIANTS Reports Rigid Untouched Idle
ALIAS Alias
CHECK_DEADLOCK FALSE
