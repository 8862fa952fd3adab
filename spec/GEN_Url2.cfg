SPECIFICATION Spec
CONSTANTS
 MaxTokens = 2
 Tokens <- UrlTokens
 Starts <- UrlStarts
INVARIANT Emit
CHECK_DEADLOCK FALSE
