INIT Init
NEXT Next
INVARIANTS SizeLaw Ends
CONSTRAINT Small
CHECK_DEADLOCK FALSE
CONSTANT M = 5
