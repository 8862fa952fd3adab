SPECIFICATION Spec
CONSTANT ChunkSize = 2000000
INVARIANTS State Served
ALIAS Expected
CHECK_DEADLOCK FALSE
