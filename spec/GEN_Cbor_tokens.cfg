SPECIFICATION Spec
CONSTANTS
 Kind = "tokens"
 Max = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
