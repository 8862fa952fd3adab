SPECIFICATION Spec
INVARIANT Acceptance
CHECK_DEADLOCK FALSE
