SPECIFICATION Spec
CONSTANTS
  Labels = {"61", "62"}
  Values = {"", "01"}
  MaxSize = 4
  PathLen = 1
INVARIANTS DigestPreserved PruningIsPruning Binding
CHECK_DEADLOCK FALSE
