INIT Init
NEXT Next
INVARIANT NoBad
CHECK_DEADLOCK FALSE
