SPECIFICATION WSpec
CONSTANTS Depth = 1
 Rich = FALSE
 Kinds = {"unit", "bool", "u8", "i16", "u32", "f32", "char", "str", "bint", "bdec", "ndate", "dt"}
INVARIANTS Prefix Success Refusal
CHECK_DEADLOCK FALSE
