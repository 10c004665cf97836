SPECIFICATION Spec
CONSTANTS W = 12 Wire = "truncneg" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
