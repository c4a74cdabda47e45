CONSTANTS
    Dropped = "none"
    Digest = 2
    Most = 4
SPECIFICATION Spec
INVARIANTS Good
CHECK_DEADLOCK FALSE
