CONSTANTS
    Size = 3
    Values = {0, 1, 2}
    Early = FALSE
SPECIFICATION Spec
INVARIANT Indistinguishable
CHECK_DEADLOCK FALSE
