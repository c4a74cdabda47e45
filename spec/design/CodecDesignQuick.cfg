CONSTANTS
    MaxUnits = 2
    MaxEnd = 3
SPECIFICATION Spec
INVARIANTS EncodeRight DecodeRight
CHECK_DEADLOCK FALSE
