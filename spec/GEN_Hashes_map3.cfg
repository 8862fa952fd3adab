SPECIFICATION Spec
CONSTANTS
 Max = 3
 Kind = "map"
INVARIANT Emit
CHECK_DEADLOCK FALSE
