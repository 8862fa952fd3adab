SPECIFICATION Spec
CONSTANT N = 140
INVARIANTS Window NoTime RoundTrip
CHECK_DEADLOCK FALSE
