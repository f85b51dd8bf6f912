CONSTANTS B = 3 D = 4 MaxFed = 75
SPECIFICATION Spec
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
