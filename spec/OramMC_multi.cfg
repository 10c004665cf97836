SPECIFICATION Spec
CONSTANTS Rows = 1 Cols = 2 H = 1 Tmod = 3 Vals = 3 Ids = {1,2,3} Modes = {"multi"} FixTab = FALSE MaxBatch = 1
INVARIANTS ReplicasAgree SelectorsOneHot PlacementOK
PROPERTIES Contract PrepareInert
VIEW View
CHECK_DEADLOCK FALSE
