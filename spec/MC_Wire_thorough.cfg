SPECIFICATION Spec
CONSTANTS Depth = 2
 Rich = FALSE
 Kinds = {"unit", "bool", "u8", "i16", "u32", "f32", "char", "str", "bint", "bdec", "ndate", "dt"}
INVARIANTS RoundTrip Truncation Injective Corruption Dynamic Conformance Header2
CHECK_DEADLOCK FALSE
