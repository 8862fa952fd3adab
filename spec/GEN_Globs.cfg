SPECIFICATION Spec
CONSTANTS
 Kind = "globs"
 Bound = 3
 Most = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
