SPECIFICATION Spec
CONSTANTS W = 12 Wire = "fillctx" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
