SPECIFICATION Spec
CONSTANTS
    P = 4
    Limit = 9
    Chunks = {0, 1, 2, 3, 4, 5, 8}
INVARIANT Authenticated
CHECK_DEADLOCK FALSE
