SPECIFICATION Spec
CONSTANTS
    D = 4
    Blocks = 7
    Kinds = {"hkdf", "pbkdf"}
    Chunks = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 28}
INVARIANTS Delivered Counter
CHECK_DEADLOCK FALSE
