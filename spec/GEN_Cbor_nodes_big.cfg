SPECIFICATION Spec
CONSTANTS
 Kind = "nodes"
 Max = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
