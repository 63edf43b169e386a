CONSTANTS Owners = {1, 2}
          Most = 256
INIT Init
NEXT Next
VIEW View
INVARIANTS Lists Ordered Counts Registered NoReuse Numbered
PROPERTY Kept
CHECK_DEADLOCK FALSE
