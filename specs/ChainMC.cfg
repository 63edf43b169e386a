CONSTANT Accounts = {1}
INIT Init
NEXT Next
INVARIANTS NoAbandoned Complete Bounds
PROPERTIES Stable Past Patient
CHECK_DEADLOCK FALSE
