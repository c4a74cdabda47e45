CONSTANT MaxArgs = 4
SPECIFICATION Spec
INVARIANTS Ignored Order First Certain Extra Further
CHECK_DEADLOCK FALSE
