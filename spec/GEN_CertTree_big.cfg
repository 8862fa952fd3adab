SPECIFICATION GenSpec
CONSTANTS
 Paths = {"", "/", "/a", "/a/", "/a/b", "/b"}
 Urls = {"/", "/a", "/a/", "/a/b", "/a/b/", "/b"}
 MaxHeld = 5
VIEW Shape
CHECK_DEADLOCK FALSE
