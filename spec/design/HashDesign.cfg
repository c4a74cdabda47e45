SPECIFICATION Spec
CONSTANTS
    B = 5
    F = 2
    Limit = 17
    Chunks = {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 15}
INVARIANTS TypeOK Absorbed Compressed
CHECK_DEADLOCK FALSE
