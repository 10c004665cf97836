SPECIFICATION Spec
CONSTANTS MaxCtx = 3
 MaxCalls = 3
 Variant = "shared"
INVARIANTS Reproducible Fresh
CHECK_DEADLOCK FALSE
