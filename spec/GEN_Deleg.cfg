SPECIFICATION Spec
CONSTANTS
  Focus = {"deleg","ranges","skey","subnet","canister","dtree","dsigner"}
  MaxDev = 2
  Bases = {"yes", "none"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
