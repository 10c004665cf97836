SPECIFICATION Spec
CONSTANTS Rows = 3
 Cols = 2
 Items = 6
 Depth = 3
 Variant = "ok"
INVARIANTS Indistinguishable AllFresh
CHECK_DEADLOCK FALSE
