SPECIFICATION Spec
CONSTANT ChunkSize = 2000000
INVARIANTS Served Verified
ALIAS Expected
CHECK_DEADLOCK FALSE
