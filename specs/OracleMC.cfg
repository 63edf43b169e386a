INIT Init
NEXT Next
INVARIANTS Fresh Certain Unitless Worth Same
CHECK_DEADLOCK FALSE
