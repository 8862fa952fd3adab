SPECIFICATION Spec
CONSTANTS
 Max = 1
 Kind = "request"
INVARIANT Emit
CHECK_DEADLOCK FALSE
