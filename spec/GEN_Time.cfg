SPECIFICATION Spec
CONSTANTS
  Focus = {"time","clock","offset","dtime"}
  MaxDev = 3
  Bases = {"yes", "none"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
