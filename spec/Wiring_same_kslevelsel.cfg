SPECIFICATION Spec
CONSTANTS W = 12 Wire = "kslevelsel" Space = "equal"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
