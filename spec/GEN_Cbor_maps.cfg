SPECIFICATION Spec
CONSTANTS
 Kind = "maps"
 Max = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
