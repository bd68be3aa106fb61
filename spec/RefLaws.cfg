INIT Init
NEXT Next
INVARIANT Hold
CHECK_DEADLOCK FALSE
CONSTANT P = 46337
