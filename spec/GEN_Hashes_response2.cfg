SPECIFICATION Spec
CONSTANTS
 Max = 2
 Kind = "response"
INVARIANT Emit
CHECK_DEADLOCK FALSE
