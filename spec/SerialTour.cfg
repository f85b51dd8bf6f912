CONSTANTS B = 4 MaxFed = 34
SPECIFICATION TSpec
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
