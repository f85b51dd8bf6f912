CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- HashB
  Starts <- HashBs
  Depth = 4
  Show = TRUE
SPECIFICATION GSpec
INVARIANTS TypeOK Streams Emit
PROPERTY Frame
CHECK_DEADLOCK FALSE
