SPECIFICATION Spec
CONSTANTS MaxBits = 8
INVARIANT OneHotAlways
CHECK_DEADLOCK FALSE
