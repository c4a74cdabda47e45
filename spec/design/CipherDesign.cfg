SPECIFICATION Spec
CONSTANTS
    Blk = 3
    Strides = {1, 2, 4}
    Most = 4
    Mod = 5
    Limit = 40
    Chunks = {0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 24, 25}
INVARIANTS Delivered
CHECK_DEADLOCK FALSE
