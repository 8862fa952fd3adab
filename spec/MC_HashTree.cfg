SPECIFICATION Spec
CONSTANTS
  Labels = {"61", "6161", "62"}
  Values = {"01"}
  MaxSize = 5
  PathLen = 2
INVARIANTS DigestPreserved PruningIsPruning FoundSound AbsentSound SubtreeSound FullKnows ListsLeaves
CHECK_DEADLOCK FALSE
