SPECIFICATION Spec
CONSTRAINT Small
INVARIANT OneHot
CHECK_DEADLOCK FALSE
