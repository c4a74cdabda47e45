CONSTANT MaxArgs = 3
SPECIFICATION Spec
INVARIANTS Ignored Order First Certain Extra Further
CHECK_DEADLOCK FALSE
