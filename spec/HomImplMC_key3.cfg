SPECIFICATION Spec
CONSTANTS N = 4 QB = 12 T = 4 Bl = 4 Lv = 3 Mut = "" Seeds = {2} Msgs2 = 1 Ops = {"ksw","kswg","subs","trace"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
