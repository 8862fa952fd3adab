SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
