SPECIFICATION Spec
CONSTANTS
  Keys = {"root", "other"}
  Msgs = {"a", "b"}
  Capacity = 9
  MaxSteps = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
