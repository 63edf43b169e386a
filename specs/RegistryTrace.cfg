CONSTANTS Owners = {1, 2}
          Most = 256
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
