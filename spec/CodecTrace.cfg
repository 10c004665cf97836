SPECIFICATION TraceSpec
CONSTANTS LB = 16
 Slack = 4096
INVARIANTS Conforms
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
