SPECIFICATION Spec
CONSTANTS
  Focus = {"rsheader", "exprhdr", "header", "status", "body"}
  MaxDev = 1
  Kinds = {"response", "excluded", "full", "full_excluded", "skip"}
  Places = {"exact", "wild", "odd"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
