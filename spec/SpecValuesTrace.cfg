SPECIFICATION Spec
INVARIANTS Slots USlots Result Equal
ALIAS Alias
CHECK_DEADLOCK FALSE
