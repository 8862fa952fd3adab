SPECIFICATION Spec
CONSTANTS
 Deep = 2
 MaxLen = 6
INVARIANTS RoundTrip NoPart NoMore Loosely
CHECK_DEADLOCK FALSE
