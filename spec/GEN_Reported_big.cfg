SPECIFICATION Spec
CONSTANTS
  Focus = {"rsheader", "exprhdr", "header", "status", "body", "expr", "tree"}
  MaxDev = 2
  Kinds = {"response", "excluded", "full", "full_excluded", "skip"}
  Places = {"exact", "wild"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
