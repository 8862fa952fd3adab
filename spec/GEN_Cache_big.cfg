SPECIFICATION Spec
CONSTANTS
  Keys = {"root", "other"}
  Msgs = {"a", "b"}
  Capacity = 9
  MaxSteps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
