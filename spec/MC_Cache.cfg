SPECIFICATION Spec
CONSTANTS
  Keys = {"root", "other"}
  Msgs = {"a", "b"}
  Capacity = 2
  MaxSteps = 3
INVARIANTS HistoryFree OnlyValid Bounded
CHECK_DEADLOCK FALSE
