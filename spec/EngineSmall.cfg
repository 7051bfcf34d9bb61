SPECIFICATION Spec
CONSTANTS
    Cap = 3
    Chunks = 4
    MaxFails = 1
    Lazy = FALSE
    OneSchedule = FALSE
    Emit = FALSE
    Graphs <- Small
INVARIANTS Aligned Complete Truthful Bounded QueuesBounded NothingLeft ReadyIsReady Replayed
PROPERTIES Terminates Persistent Sequential
CHECK_DEADLOCK TRUE
