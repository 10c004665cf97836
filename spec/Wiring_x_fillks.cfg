SPECIFICATION Spec
CONSTANTS W = 12 Wire = "fillks" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
