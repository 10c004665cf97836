SPECIFICATION Spec
CONSTANTS N = 4 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "sign" Seeds = {1} Msgs2 = 1 Ops = {"subs"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
