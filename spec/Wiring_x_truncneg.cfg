SPECIFICATION Spec
CONSTANTS W = 12 Wire = "truncneg" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
