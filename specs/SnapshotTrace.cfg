CONSTANTS Own = {1, 2}
          Oracles = {11, 12, 13}
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
