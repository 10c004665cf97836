SPECIFICATION Spec
CONSTANTS N = 8 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "leq" Seeds = {1} Msgs2 = 1 Ops = {"leq"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
