SPECIFICATION Spec
CONSTANT Choice = "large"
INVARIANTS TypeOK Property
CHECK_DEADLOCK FALSE
