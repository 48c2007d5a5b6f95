SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rich = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
