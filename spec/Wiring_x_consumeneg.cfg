SPECIFICATION Spec
CONSTANTS W = 12 Wire = "consumeneg" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
