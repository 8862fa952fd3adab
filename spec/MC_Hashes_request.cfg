SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 2
 Kind = "request"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
