CONSTANTS B = 3 D = 4 MaxFed = 53
SPECIFICATION TSpec
INVARIANT Inv
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
