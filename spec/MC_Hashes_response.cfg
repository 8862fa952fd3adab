SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 2
 Kind = "response"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
