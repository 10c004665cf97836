SPECIFICATION Spec
CONSTANT LB = 2
INVARIANT Right
CHECK_DEADLOCK FALSE
