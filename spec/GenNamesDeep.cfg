SPECIFICATION Spec
CONSTANTS AllFlips = 9 MaxFlips = 3
INVARIANTS Emit CaseBlind Unedited OneKind
CHECK_DEADLOCK FALSE
