SPECIFICATION Spec
CONSTANTS
 Kind = "chunks"
 Bound = 2
 Most = 6
INVARIANT Emit
CHECK_DEADLOCK FALSE
