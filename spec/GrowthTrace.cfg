SPECIFICATION TraceSpec
CONSTANTS Slack = 32
INVARIANTS Conforms
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
