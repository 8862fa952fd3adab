SPECIFICATION Spec
CONSTANTS
 Kind = "ranges"
 Max = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
