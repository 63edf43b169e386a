INIT Init
NEXT Next
INVARIANTS Honest Patient Prompt Asks
CHECK_DEADLOCK FALSE
