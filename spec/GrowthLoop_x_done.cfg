SPECIFICATION Spec
CONSTANTS D = 1
 F = 2
 Sizes = {0, 1, 2, 3}
INVARIANT NeverDone
CHECK_DEADLOCK FALSE
