SPECIFICATION Spec
CONSTANTS W = 12 Wire = "neglevelks" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
