SPECIFICATION Spec
CONSTANTS W = 12 Wire = "fillks" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
