SPECIFICATION Spec
CONSTANT Budget = 1
INVARIANT Good
CHECK_DEADLOCK FALSE
