SPECIFICATION GenSpec
CONSTANTS
  MaxEntries = 2
  AllPrunings = FALSE
  Odd = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
