SPECIFICATION Spec
CONSTANTS
  Focus = {"header", "version", "min"}
  MaxDev = 2
  Kinds = {"response", "v1"}
  Places = {"exact"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
