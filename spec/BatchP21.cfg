SPECIFICATION Spec
INVARIANTS Permutation Consecutive Everything
ALIAS Alias
CHECK_DEADLOCK FALSE
