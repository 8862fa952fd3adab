SPECIFICATION Spec
CONSTANTS
 MaxTokens = 3
 Tokens <- UrlTokens
 Starts <- UrlStarts
INVARIANT Consistent
CHECK_DEADLOCK FALSE
