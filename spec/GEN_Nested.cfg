SPECIFICATION GenSpec
CONSTANTS
 Keys = {"61", "62", "63"}
 MaxDepth = 2
VIEW Shape
CHECK_DEADLOCK FALSE
