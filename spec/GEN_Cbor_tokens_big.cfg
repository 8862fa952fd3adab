SPECIFICATION Spec
CONSTANTS
 Kind = "tokens"
 Max = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
