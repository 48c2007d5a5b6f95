SPECIFICATION Spec
CONSTANTS Messages <- Larger
 MaxMessages = 3
INVARIANTS Allowed Accounted Honest
PROPERTIES Ends Delivers
CHECK_DEADLOCK FALSE
