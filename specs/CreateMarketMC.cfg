INIT Init
NEXT Next
INVARIANTS Covered Bounded Trades Priced Faithful
CHECK_DEADLOCK FALSE
