SPECIFICATION Spec
CONSTANTS W = 12 Wire = "lwesel" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
