SPECIFICATION Spec
INVARIANTS
    HeapOK
    PushAggregate
    PushBinary
    Hides
    BackAgain
    Composes
    Emitted
CHECK_DEADLOCK FALSE
