CONSTANTS
  Dig <- SymDig
  DebugBuild = FALSE
  Universe <- Mix
  Starts <- Mixs
  Depth = 60
  Show = TRUE
SPECIFICATION GSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
