SPECIFICATION Spec
CONSTANTS MaxScript = 5
 Some = {1, 2, 100}
INVARIANT Emit
CHECK_DEADLOCK FALSE
