SPECIFICATION Spec
CONSTANTS Variant = "code" Labels = {0, 1, 2} Ths = {0, 1} Fts = {0} Vals = {0, 1, 2}
INVARIANTS Refines
CHECK_DEADLOCK FALSE
