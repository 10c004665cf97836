SPECIFICATION Spec
CONSTANTS Rows = {0, 1, 2} Cols = {0, 1, 2} Items = {1, 2, 3, 4} H = 2 Table <- TheTable N = 3 Wanted <- TheWanted
INVARIANT Contract
CHECK_DEADLOCK FALSE
