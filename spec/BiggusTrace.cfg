SPECIFICATION Spec
INVARIANT HeapOK
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
