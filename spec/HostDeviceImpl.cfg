INIT Init
NEXT Next
INVARIANT Coherent
PROPERTY ReadLaw
CHECK_DEADLOCK FALSE
CONSTANTS NA = 2 Vals = {0, 1, 2} OffsetSync = TRUE
