SPECIFICATION Spec
CONSTANTS
 Kind = "nodes"
 Max = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
