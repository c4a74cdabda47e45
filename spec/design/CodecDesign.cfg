CONSTANTS
    MaxUnits = 3
    MaxEnd = 4
SPECIFICATION Spec
INVARIANTS EncodeRight DecodeRight
CHECK_DEADLOCK FALSE
