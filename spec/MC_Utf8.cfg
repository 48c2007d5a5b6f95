SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Every = 97
INVARIANTS OfChars Surrogates OfStrings
CHECK_DEADLOCK FALSE
