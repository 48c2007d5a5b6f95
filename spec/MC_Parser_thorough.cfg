SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Rich = TRUE
INVARIANTS Exact Refused Starved Again WorkPerByte Memory
PROPERTY Ends
CHECK_DEADLOCK FALSE
