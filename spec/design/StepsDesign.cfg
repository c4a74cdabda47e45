SPECIFICATION Spec
CONSTANTS
    Base = 4
    W = 2
INVARIANT Closed
CHECK_DEADLOCK FALSE
