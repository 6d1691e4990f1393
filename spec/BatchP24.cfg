SPECIFICATION Spec
INVARIANTS Styles Bounded Explicit Empties Reported
ALIAS Alias
CHECK_DEADLOCK FALSE
