SPECIFICATION Spec
CONSTANTS C = 3 K = 2 Val = {0, 1, 2}
INVARIANT NeverDone
CHECK_DEADLOCK FALSE
