SPECIFICATION Spec
CONSTANTS
 MaxTokens = 3
 Tokens <- UrlTokens
 Starts <- UrlStarts
INVARIANT Emit
CHECK_DEADLOCK FALSE
