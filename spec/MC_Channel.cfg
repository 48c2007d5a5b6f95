SPECIFICATION Spec
CONSTANTS Messages <- Small
 MaxMessages = 2
INVARIANTS Allowed Accounted Honest
PROPERTIES Ends Delivers
CHECK_DEADLOCK FALSE
