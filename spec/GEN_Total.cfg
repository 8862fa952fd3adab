SPECIFICATION Spec
CONSTANT Much = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
