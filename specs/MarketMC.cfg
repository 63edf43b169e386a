INIT Init
NEXT Next
VIEW View
INVARIANTS NothingBroken InvSolvent InvCounters InvCoherent InvSorted InvConfluent InvWindDown InvQuotes InvView Report
CHECK_DEADLOCK FALSE
