SPECIFICATION Spec
CONSTANTS AllFlips = 6 MaxFlips = 2
INVARIANTS Emit CaseBlind Unedited OneKind
CHECK_DEADLOCK FALSE
