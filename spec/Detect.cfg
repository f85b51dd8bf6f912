SPECIFICATION Spec
INVARIANT Safe
POSTCONDITION RowsOK
CHECK_DEADLOCK FALSE
