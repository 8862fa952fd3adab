SPECIFICATION GenSpec
CONSTANTS
 Paths = {"", "/", "/a", "/a/", "/a/b"}
 Urls = {"/", "/a", "/a/", "/a/b", "/a/b/", "/b"}
 MaxHeld = 3
VIEW Shape
CHECK_DEADLOCK FALSE
