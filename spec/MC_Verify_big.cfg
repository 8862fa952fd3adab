SPECIFICATION Spec
CONSTANT Budget = 2
INVARIANT Good
CHECK_DEADLOCK FALSE
