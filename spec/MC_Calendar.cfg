SPECIFICATION Spec
CONSTANT Years = "some"
INVARIANT Inv
CHECK_DEADLOCK FALSE
