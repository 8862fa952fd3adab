SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 2
 Kind = "map"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
