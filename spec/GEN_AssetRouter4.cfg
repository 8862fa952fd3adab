SPECIFICATION GenSpec
CONSTANTS
 ChunkSize = 2
 MaxOps = 4
VIEW Shape
CHECK_DEADLOCK FALSE
