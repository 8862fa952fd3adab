SPECIFICATION Spec
CONSTANT Much = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
