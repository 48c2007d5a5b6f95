SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Rich = FALSE
INVARIANTS Exact Refused Starved Again WorkPerByte Memory

CHECK_DEADLOCK FALSE
PROPERTY Ends
