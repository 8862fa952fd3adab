SPECIFICATION Spec
CONSTANTS
 Max = 2
 Kind = "request"
INVARIANT Emit
CHECK_DEADLOCK FALSE
