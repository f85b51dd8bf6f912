CONSTANTS
  Dig <- TDig
  DebugBuild <- TDebug
SPECIFICATION TSpec
INVARIANT TypeInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
