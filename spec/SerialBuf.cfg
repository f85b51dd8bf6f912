CONSTANTS B = 64 MaxFed = 260
SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
