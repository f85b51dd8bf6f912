CONSTANTS MaxLen = 3 Bytes = {0, 1} EarlyExit = TRUE Table = FALSE
SPECIFICATION Spec
INVARIANTS SameSteps Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
