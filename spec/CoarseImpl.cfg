INIT Init
NEXT Next
INVARIANTS Reads Contains
CHECK_DEADLOCK FALSE
CONSTANTS MaxRatio = 7 Span = 24
