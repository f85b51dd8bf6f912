CONSTANTS B = 2 Fan = 8 Degrees <- Deg84 MaxJobs = 8 Lengths <- UpTo70 Starts = {0}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
PROPERTY LaneSteps
CHECK_DEADLOCK FALSE
