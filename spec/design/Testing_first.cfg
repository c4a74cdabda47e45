CONSTANTS
    Lacks = "first"
    Impls = 2
    Vectors = 2
SPECIFICATION Spec
INVARIANTS Good
CHECK_DEADLOCK FALSE
