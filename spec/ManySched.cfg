CONSTANTS B = 2 Fan = 1 Degrees <- Deg42 MaxJobs = 5 Lengths = {0,1,2,3,4,6} Starts = {0}
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
PROPERTY LaneSteps
CHECK_DEADLOCK FALSE
