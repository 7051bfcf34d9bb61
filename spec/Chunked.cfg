SPECIFICATION Spec
CONSTANTS
    MaxLen = 5
    Masked = {TRUE}
    Values <- Few
    MaxDims = 3
    MaxSize = 3
    MaxLimit = 8
INVARIANTS Running Right
CHECK_DEADLOCK FALSE
