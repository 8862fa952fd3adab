SPECIFICATION Spec
CONSTANTS
 Max = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
