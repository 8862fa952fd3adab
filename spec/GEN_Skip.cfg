SPECIFICATION Spec
CONSTANTS
  Focus = {"expr", "exprhdr", "tree", "epath", "cdata", "cert", "rqpath"}
  MaxDev = 2
  Kinds = {"skip"}
  Places = {"exact", "wild"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
