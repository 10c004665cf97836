SPECIFICATION TraceSpec
INVARIANTS Conforms TraceReplicas
PROPERTIES TraceContract
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
