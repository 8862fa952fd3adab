SPECIFICATION Spec
CONSTANTS
 Paths = {"", "/", "/a", "/a/", "/a/b"}
 Urls = {"/", "/a", "/a/", "/a/b", "/a/b/", "/b"}
 MaxHeld = 3
INVARIANTS AcceptedIffAnswers NeverForAnother SomeAnswer Shown
CHECK_DEADLOCK FALSE
