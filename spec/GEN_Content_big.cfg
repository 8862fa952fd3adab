SPECIFICATION Spec
CONSTANTS
  Focus = {"method", "rqheader", "rqquery", "rqbody", "rqpath", "status", "body", "rsheader", "expr", "exprhdr", "tree", "epath", "cdata", "cert"}
  MaxDev = 2
  Kinds = {"response", "full", "full_excluded"}
  Places = {"exact", "wild"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
