INIT Init
NEXT Next
INVARIANTS Refines PairSeen
CHECK_DEADLOCK FALSE
CONSTANTS MaxDim = 4 MaxExt = 3 Jump = "fixed"
