SPECIFICATION Spec
CONSTANTS LB = 2
 Slack = 2
 Variant = "overflow"
INVARIANTS Refines Bounds
CHECK_DEADLOCK FALSE
