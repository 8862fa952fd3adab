SPECIFICATION GenSpec
CONSTANTS
 Keys = {"61", "62"}
 MaxDepth = 3
VIEW Shape
CHECK_DEADLOCK FALSE
