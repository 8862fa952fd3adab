SPECIFICATION Spec
CONSTANTS
 Keys = {"61", "62"}
 MaxDepth = 3
INVARIANTS Refines NoEmpty PrefixFree ShowsState
CHECK_DEADLOCK FALSE
