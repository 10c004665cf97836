SPECIFICATION TraceSpec
CONSTANTS Mutant = "none"
INVARIANTS Conforms
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
