SPECIFICATION WSpec
CONSTANTS Depth = 2
 Rich = FALSE
 Kinds = {"bool", "i16", "str", "bdec", "dt"}
INVARIANTS Prefix Success Refusal
CHECK_DEADLOCK FALSE
