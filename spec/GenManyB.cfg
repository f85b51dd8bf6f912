CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- ManyB
  Starts <- ManyBs
  Depth = 4
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
