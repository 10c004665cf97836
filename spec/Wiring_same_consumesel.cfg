SPECIFICATION Spec
CONSTANTS W = 12 Wire = "consumesel" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
