INIT Init
NEXT Next
INVARIANT Refines
CHECK_DEADLOCK FALSE
CONSTANTS MaxDim = 4 MaxExt = 5
