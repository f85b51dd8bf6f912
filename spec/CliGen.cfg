CONSTANTS
  MaxInputs = 2
  MaxSize = 2
  MaxEintr = 1
  Export = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK NoWrongDigest InOrder AtEnd Emit
CHECK_DEADLOCK FALSE
