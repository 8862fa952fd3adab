SPECIFICATION Spec
CONSTANTS
 Max = 2
 Kind = "map"
INVARIANT Emit
CHECK_DEADLOCK FALSE
