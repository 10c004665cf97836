SPECIFICATION Spec
CONSTANTS Variant = "rightfirst" Labels = {0, 3} Ths = {0} Fts = {0, 1} Vals = {0, 1}
INVARIANTS Refines
CHECK_DEADLOCK FALSE
