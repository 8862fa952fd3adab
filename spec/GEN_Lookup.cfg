SPECIFICATION GenSpec
CONSTANTS
  Labels = {"61", "62"}
  Values = {"01"}
  MaxSize = 5
  PathLen = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
