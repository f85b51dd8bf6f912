CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- SerialB
  Starts <- SerialBs
  Depth = 4
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
