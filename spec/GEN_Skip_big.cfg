SPECIFICATION Spec
CONSTANTS
  Focus = {"expr", "exprhdr", "tree", "epath", "cdata", "cert", "rqpath", "header"}
  MaxDev = 2
  Kinds = {"skip", "response", "full"}
  Places = {"exact", "wild", "dir", "root", "rootwild", "odd", "absolute"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
