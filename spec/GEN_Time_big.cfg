SPECIFICATION Spec
CONSTANTS
  Focus = {"time","clock","offset","dtime"}
  MaxDev = 4
  Bases = {"yes", "none"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
