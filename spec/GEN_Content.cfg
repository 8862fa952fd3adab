SPECIFICATION Spec
CONSTANTS
  Focus = {"method", "rqheader", "rqquery", "rqbody", "rqpath", "status", "body", "rsheader", "expr", "exprhdr", "tree", "epath", "cdata", "cert"}
  MaxDev = 1
  Kinds = {"response", "excluded", "full", "full_excluded"}
  Places = {"exact", "wild", "dir", "absolute"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
