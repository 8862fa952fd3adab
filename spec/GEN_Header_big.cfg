SPECIFICATION Spec
CONSTANTS
  Focus = {"header", "version", "min", "exprhdr", "expr"}
  MaxDev = 3
  Kinds = {"response", "v1", "skip"}
  Places = {"exact"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
