SPECIFICATION GenSpec
CONSTANTS
 ChunkSize = 2
 MaxOps = 3
VIEW Shape
CHECK_DEADLOCK FALSE
