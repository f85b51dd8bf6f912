CONSTANTS B = 2 Fan = 1 Degrees <- Deg84 MaxJobs = 9 Lengths = {0, 2, 5} Starts = {0}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
PROPERTY LaneSteps
CHECK_DEADLOCK FALSE
