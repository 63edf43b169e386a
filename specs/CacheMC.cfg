CONSTANTS Accounts = {1, 2, 3}
          Kinds = {1, 2}
          Requests = {1, 2}
          Kind <- KindOf
INIT Init
NEXT Next
INVARIANTS Recent ListsKept Awaited
PROPERTIES Sparing Forgiving Told1 True1
VIEW View
CHECK_DEADLOCK FALSE
