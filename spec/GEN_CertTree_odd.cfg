SPECIFICATION GenSpec
CONSTANTS
 Paths = {"", "/a/<&>", "/a/b", "/a/"}
 Urls = {"/a", "/a/b", "/"}
 MaxHeld = 3
VIEW Shape
CHECK_DEADLOCK FALSE
