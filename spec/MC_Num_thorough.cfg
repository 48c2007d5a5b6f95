SPECIFICATION Spec
CONSTANTS MaxLen = 5
 MaxNum = 20000
INVARIANT Inv
CHECK_DEADLOCK FALSE
