SPECIFICATION Spec
CONSTANTS MaxCtx = 3
 MaxCalls = 3
 Variant = "clock"
INVARIANTS Reproducible Fresh
CHECK_DEADLOCK FALSE
