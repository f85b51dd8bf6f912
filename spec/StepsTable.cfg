CONSTANTS MaxLen = 3 Bytes = {0, 1} EarlyExit = FALSE Table = TRUE
SPECIFICATION Spec
INVARIANTS SameSteps SameTouches Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
