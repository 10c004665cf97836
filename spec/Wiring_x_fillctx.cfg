SPECIFICATION Spec
CONSTANTS W = 12 Wire = "fillctx" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
