SPECIFICATION Spec
INVARIANTS Values Handles Batchers
ALIAS Alias
CHECK_DEADLOCK FALSE
