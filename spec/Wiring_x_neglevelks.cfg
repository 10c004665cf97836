SPECIFICATION Spec
CONSTANTS W = 12 Wire = "neglevelks" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
