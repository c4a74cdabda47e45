CONSTANTS
    MaxPattern = 4
    MaxText = 5
SPECIFICATION Spec
INVARIANTS Right Meant
PROPERTY Ends
CHECK_DEADLOCK FALSE
