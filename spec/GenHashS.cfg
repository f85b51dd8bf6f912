CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- HashS
  Starts <- HashSs
  Depth = 4
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
