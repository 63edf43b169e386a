CONSTANT Requests = {1, 2}
INIT Init
NEXT Next
INVARIANTS Whole Signed Priced Told Same
PROPERTIES Honest Own
VIEW View
CHECK_DEADLOCK FALSE
