CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- ParamS
  Starts <- ParamSs
  Depth = 3
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
