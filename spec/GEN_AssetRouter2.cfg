SPECIFICATION GenSpec
CONSTANTS
 ChunkSize = 2
 MaxOps = 2
VIEW Shape
CHECK_DEADLOCK FALSE
