SPECIFICATION TraceSpec
INVARIANTS Conforms 
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
