SPECIFICATION Spec
CONSTANTS W = 12 Wire = "none" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
