CONSTANTS
    Late = TRUE
    Sizes = {0, 1, 2, 3}
    Rooms = {0, 1, 3}
    Depth = 4
SPECIFICATION Spec
INVARIANTS NoGap InPlace Sparing
CHECK_DEADLOCK FALSE
