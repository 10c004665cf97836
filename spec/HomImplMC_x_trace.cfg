SPECIFICATION Spec
CONSTANTS N = 4 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "trace" Seeds = {1} Msgs2 = 1 Ops = {"trace"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
