SPECIFICATION Spec
CONSTANTS Step = 7
 MaxB = 5
INVARIANT Inv
CHECK_DEADLOCK FALSE
