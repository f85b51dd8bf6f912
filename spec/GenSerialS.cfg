CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- SerialS
  Starts <- SerialSs
  Depth = 4
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
