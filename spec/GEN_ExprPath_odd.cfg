SPECIFICATION GenSpec
CONSTANTS
  MaxEntries = 2
  AllPrunings = FALSE
  Odd = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
