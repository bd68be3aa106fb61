INIT Init
NEXT Next
INVARIANT Confluent
CHECK_DEADLOCK FALSE
CONSTANT P = 46337
CONSTANT Workers = 3
