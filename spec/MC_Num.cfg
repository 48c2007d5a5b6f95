SPECIFICATION Spec
CONSTANTS MaxLen = 3
 MaxNum = 300
INVARIANT Inv
CHECK_DEADLOCK FALSE
