SPECIFICATION Spec
CONSTANTS
 ChunkSize = 2
 MaxOps = 2
VIEW Shape
INVARIANTS TreeFollows AnswersVerify HeldIsServed EncodingAccepted ChunksCover Distinct
PROPERTY DeleteForgets
CHECK_DEADLOCK FALSE
