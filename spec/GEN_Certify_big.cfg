SPECIFICATION Spec
CONSTANTS
 MaxHeaders = 4
INVARIANT Emit
CHECK_DEADLOCK FALSE
