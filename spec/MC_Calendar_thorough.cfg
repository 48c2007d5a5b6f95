SPECIFICATION Spec
CONSTANT Years = "all"
INVARIANT Inv
CHECK_DEADLOCK FALSE
