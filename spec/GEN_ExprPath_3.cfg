SPECIFICATION GenSpec
CONSTANTS
  MaxEntries = 3
  AllPrunings = FALSE
  Odd = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
