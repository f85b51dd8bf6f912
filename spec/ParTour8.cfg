CONSTANTS B = 3 D = 8 MaxFed = 101
SPECIFICATION TSpec
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
