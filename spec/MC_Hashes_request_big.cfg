SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 3
 Kind = "request"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
