SPECIFICATION Spec
CONSTANTS
    MaxLength = 5
    Inputs = 3
    Emit = TRUE
INVARIANTS InRange Aligned Correct Replayed
PROPERTY Terminates
CHECK_DEADLOCK FALSE
