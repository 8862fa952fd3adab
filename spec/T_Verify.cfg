SPECIFICATION Spec
INVARIANT Conforms
ALIAS Expected
CHECK_DEADLOCK FALSE
