SPECIFICATION Spec
CONSTANTS Step = 1
 MaxB = 9
INVARIANT Inv
CHECK_DEADLOCK FALSE
