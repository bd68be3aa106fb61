INIT Init
NEXT Next
INVARIANT NoBad
CHECK_DEADLOCK FALSE
CONSTANT P = 46337
