SPECIFICATION Spec
CONSTANTS
 MaxTokens = 2
 Tokens <- UrlTokens
 Starts <- UrlStarts
INVARIANT Consistent
CHECK_DEADLOCK FALSE
