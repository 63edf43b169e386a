INIT Init
NEXT Next
INVARIANTS Ours OneType AnyWay Reads UnsetIsNobody Exact
CHECK_DEADLOCK FALSE
