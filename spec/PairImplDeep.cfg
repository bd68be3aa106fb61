INIT Init
NEXT Next
INVARIANTS Refines PairSeen
CHECK_DEADLOCK FALSE
CONSTANTS MaxDim = 4 MaxExt = 4 Jump = "fixed"
