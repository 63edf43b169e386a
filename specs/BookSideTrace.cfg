CONSTANT Pool = 1024
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
