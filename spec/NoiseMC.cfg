SPECIFICATION Spec
CONSTANTS LB = 2
 Slack = 2
 Variant = "ok"
INVARIANTS Refines Bounds
CHECK_DEADLOCK FALSE
