SPECIFICATION Spec
CONSTANTS
 Kind = "globs"
 Bound = 4
 Most = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
