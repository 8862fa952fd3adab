SPECIFICATION Spec
INVARIANTS Sound NoForgedData Complete
CHECK_DEADLOCK FALSE
