CONSTANTS
  MaxInputs = 3
  MaxSize = 2
  MaxEintr = 2
  Export = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK NoWrongDigest InOrder AtEnd
PROPERTY Terminates
CHECK_DEADLOCK FALSE
