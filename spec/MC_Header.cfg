SPECIFICATION Spec
CONSTANTS Depth = 2
 MaxLen = 4
 Alphabet = {0, 1, 2, 7, 20, 21, 24, 128, 255}
 Some = {"u8", "dt"}
 Other = {"unit", "str", "u8"}
INVARIANTS RoundTrip Injective Size Unassigned Accepted
CHECK_DEADLOCK FALSE
