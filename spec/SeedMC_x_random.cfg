SPECIFICATION Spec
CONSTANTS MaxCtx = 3
 MaxCalls = 3
 Variant = "random"
INVARIANTS Reproducible Fresh
CHECK_DEADLOCK FALSE
