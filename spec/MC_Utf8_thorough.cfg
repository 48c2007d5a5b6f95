SPECIFICATION Spec
CONSTANTS MaxLen = 4
 Every = 1
INVARIANTS OfChars Surrogates OfStrings
CHECK_DEADLOCK FALSE
