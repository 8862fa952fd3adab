SPECIFICATION Spec
CONSTANTS
 Max = 1
 Kind = "response"
INVARIANT Emit
CHECK_DEADLOCK FALSE
