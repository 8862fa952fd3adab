SPECIFICATION Spec
CONSTANTS
  MaxEntries = 2
  AllPrunings = FALSE
  Odd = FALSE
INVARIANTS Sound Unique Complete Monotonic
CHECK_DEADLOCK FALSE
