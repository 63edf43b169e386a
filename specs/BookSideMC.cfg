CONSTANT Pool = 9
INIT Init
NEXT Next
VIEW View
INVARIANTS Exact Sorted Fits Knows Ranked
CHECK_DEADLOCK FALSE
