SPECIFICATION Spec
INVARIANTS IsBatched Values Handles Batchers Tight SameAt
ALIAS Alias
CHECK_DEADLOCK FALSE
