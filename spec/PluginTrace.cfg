SPECIFICATION Spec
INVARIANTS AsksOnce Follows Whole Composite Typed Batched
ALIAS Alias
CHECK_DEADLOCK FALSE
