CONSTANT Requests = {1, 2}
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
