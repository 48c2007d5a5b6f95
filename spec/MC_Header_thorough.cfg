SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 5
 Alphabet = {0, 1, 2, 3, 7, 12, 18, 20, 21, 22, 24, 26, 27, 128, 192, 255}
 Some = {"unit", "bool", "u8", "dt", "bdec"}
 Other = {"unit", "bool", "u8", "i64", "str", "date"}
INVARIANTS RoundTrip Injective Size Unassigned Accepted
CHECK_DEADLOCK FALSE
