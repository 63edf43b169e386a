CONSTANT Cap = 3
INIT Init
NEXT Next
VIEW View
INVARIANTS Exact Ordered Oldest NoAlias Usable
CHECK_DEADLOCK FALSE
