SPECIFICATION Spec
CONSTANTS N = 4 QB = 14 T = 4 Bl = 3 Lv = 4 Mut = "" Seeds = {1} Msgs2 = 1 Ops = {"extract","pack","expand"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
