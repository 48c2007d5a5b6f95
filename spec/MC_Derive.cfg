SPECIFICATION Spec
CONSTANT Choice = "small"
INVARIANTS TypeOK Property
CHECK_DEADLOCK FALSE
