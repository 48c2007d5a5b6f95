SPECIFICATION Spec
INVARIANT Emit
CONSTANTS Depth = 5
 Rich = TRUE
 Kinds = {"unit", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "char", "str", "bytes",
          "buint", "bint", "bdec", "date", "dt", "nbuint", "nbint", "nbdec", "ndate", "ndt"}
CHECK_DEADLOCK FALSE
