SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 3
 Kind = "response"
INVARIANT Faithful
CHECK_DEADLOCK FALSE
