CONSTANTS Accounts = {1, 2, 3}
          Kinds = {1, 2}
          Requests = {1, 2, 3}
          Kind <- KindOf
INIT Init
NEXT Next
INVARIANT Conforms
CHECK_DEADLOCK FALSE
