SPECIFICATION Spec
CONSTANTS
 Kind = "encodings"
 Bound = 2
 Most = 2000
INVARIANT Emit
CHECK_DEADLOCK FALSE
