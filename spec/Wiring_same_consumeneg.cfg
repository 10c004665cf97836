SPECIFICATION Spec
CONSTANTS W = 12 Wire = "consumeneg" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
