SPECIFICATION GenSpec
CONSTANTS
  Labels = {"", "61", "6161", "62"}
  Values = {"01"}
  MaxSize = 6
  PathLen = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
