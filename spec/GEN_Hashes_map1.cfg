SPECIFICATION Spec
CONSTANTS
 Max = 1
 Kind = "map"
INVARIANT Emit
CHECK_DEADLOCK FALSE
