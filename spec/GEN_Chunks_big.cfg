SPECIFICATION Spec
CONSTANTS
 Kind = "chunks"
 Bound = 3
 Most = 30
INVARIANT Emit
CHECK_DEADLOCK FALSE
