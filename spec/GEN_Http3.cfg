SPECIFICATION Spec
CONSTANTS
 Max = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
