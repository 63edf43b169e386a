CONSTANTS Own = {1, 2}
          Oracles = {11, 12, 13}
INIT Init
NEXT Next
INVARIANTS Late Spare Seldom
PROPERTIES True1 Complete OnlyWhole
VIEW View
CHECK_DEADLOCK FALSE
