INIT Init
NEXT Next
INVARIANTS PairSeen
CHECK_DEADLOCK FALSE
CONSTANTS MaxDim = 3 MaxExt = 3 Jump = "original"
