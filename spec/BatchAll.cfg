SPECIFICATION Spec
INVARIANTS Permutation Consecutive Everything SmallEnough Reported Tight Apart Styles Bounded Explicit Empties
ALIAS Alias
CHECK_DEADLOCK FALSE
