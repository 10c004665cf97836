SPECIFICATION Spec
CONSTANTS Rows = 2
 Cols = 4
 Items = 8
 Depth = 2
 Variant = "padding"
INVARIANTS Indistinguishable AllFresh
CHECK_DEADLOCK FALSE
