SPECIFICATION Spec
CONSTANTS
 Paths = {"", "/", "/a", "/a/", "/a/b", "/b"}
 Urls = {"/", "/a", "/a/", "/a/b", "/a/b/", "/b"}
 MaxHeld = 6
INVARIANTS AcceptedIffAnswers NeverForAnother SomeAnswer Shown
CHECK_DEADLOCK FALSE
