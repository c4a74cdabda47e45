CONSTANTS
    Fields = {"state", "buffer", "fill", "key", "view"}
    Erased = {"state", "buffer", "fill", "key"}
    Depth = 14
SPECIFICATION Spec
INVARIANT NothingLeft
VIEW View
CHECK_DEADLOCK FALSE
