SPECIFICATION Spec
CONSTANTS N = 2 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "level" Seeds = {1} Msgs2 = 1 Ops = {"ksw"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
