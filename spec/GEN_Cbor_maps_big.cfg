SPECIFICATION Spec
CONSTANTS
 Kind = "maps"
 Max = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
