CONSTANT Cap = 600
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
