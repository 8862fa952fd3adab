SPECIFICATION Spec
CONSTANTS
 Kind = "encodings"
 Bound = 2
 Most = 150
INVARIANT Emit
CHECK_DEADLOCK FALSE
