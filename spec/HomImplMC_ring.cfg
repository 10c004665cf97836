SPECIFICATION Spec
CONSTANTS N = 2 QB = 12 T = 4 Bl = 3 Lv = 4 Mut = "" Seeds = {1,2,3} Msgs2 = 3 Ops = {"add","sub","mul","div","ext","cmux"}
INVARIANT Refines
CHECK_DEADLOCK FALSE
