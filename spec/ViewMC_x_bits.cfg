SPECIFICATION Spec
CONSTANTS Rows = 2
 Cols = 4
 Items = 8
 Depth = 2
 Variant = "bits"
INVARIANTS Indistinguishable AllFresh
CHECK_DEADLOCK FALSE
