SPECIFICATION Spec
CONSTANTS
  Focus = {"enc", "v1path", "body", "rqpath", "tree", "cdata", "cert", "header"}
  MaxDev = 3
  Kinds = {"v1"}
  Places = {"exact", "odd"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
