SPECIFICATION Spec
CONSTANTS
  Focus = {"deleg","signer","domain","sig","tree","rootkey","dsigner","dsig","dtree","ddomain","skey"}
  MaxDev = 1
  Bases = {"yes", "none"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
