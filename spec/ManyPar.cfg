CONSTANTS B = 2 Fan = 4 Degrees <- Deg42 MaxJobs = 4 Lengths <- UpTo40 Starts = {0, 2}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
PROPERTY LaneSteps
CHECK_DEADLOCK FALSE
