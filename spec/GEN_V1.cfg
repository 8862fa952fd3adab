SPECIFICATION Spec
CONSTANTS
  Focus = {"enc", "v1path", "body", "rqpath", "tree", "cdata", "cert"}
  MaxDev = 2
  Kinds = {"v1"}
  Places = {"exact", "dir"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
