SPECIFICATION Spec
CONSTANTS N = 2 QB = 12 T = 4 Bl = 4 Lv = 3 Mut = "odd" Seeds = {1} Msgs2 = 1 Ops = {"ksw"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
