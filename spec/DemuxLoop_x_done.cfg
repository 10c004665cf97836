SPECIFICATION Spec

INVARIANT NeverDone
CHECK_DEADLOCK FALSE
