SPECIFICATION Spec
CONSTANTS W = 12 Wire = "lwesel" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
