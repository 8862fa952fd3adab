SPECIFICATION Spec
CONSTANTS
  MaxEntries = 2
  AllPrunings = TRUE
  Odd = TRUE
INVARIANTS Sound Unique Complete Monotonic
CHECK_DEADLOCK FALSE
