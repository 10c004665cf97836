SPECIFICATION Spec
CONSTANTS N = 8 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "" Seeds = {1} Msgs2 = 1 Ops = {"leq","eq"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
