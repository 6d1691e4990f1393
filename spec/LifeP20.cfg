SPECIFICATION Spec
INVARIANTS IsBatched Values Handles Batchers
ALIAS Alias
CHECK_DEADLOCK FALSE
