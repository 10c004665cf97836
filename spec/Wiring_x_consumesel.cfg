SPECIFICATION Spec
CONSTANTS W = 12 Wire = "consumesel" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
