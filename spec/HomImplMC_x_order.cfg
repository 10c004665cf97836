SPECIFICATION Spec
CONSTANTS N = 2 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "order" Seeds = {1} Msgs2 = 1 Ops = {"ksw","kswg","subs","trace"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
