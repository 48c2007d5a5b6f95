SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rich = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
