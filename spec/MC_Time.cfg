SPECIFICATION Spec
CONSTANT N = 24
INVARIANTS Window NoTime RoundTrip
CHECK_DEADLOCK FALSE
