SPECIFICATION Spec
CONSTANTS
 Max = 3
 Kind = "response"
INVARIANT Emit
CHECK_DEADLOCK FALSE
