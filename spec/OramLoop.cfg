SPECIFICATION Spec
CONSTANTS C = 3 K = 2 Val = {0, 1, 2}
INVARIANT Contract
CHECK_DEADLOCK FALSE
