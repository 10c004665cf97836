SPECIFICATION Spec
CONSTANTS W = 12 Wire = "kslevelsel" Space = "all"
INVARIANT C19Wiring
CHECK_DEADLOCK FALSE
