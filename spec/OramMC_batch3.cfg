SPECIFICATION Spec
CONSTANTS Rows = 3 Cols = 2 H = 3 Tmod = 3 Vals = 3 Ids = {1} Modes = {"batch"} FixTab = FALSE MaxBatch = 2
INVARIANTS ReplicasAgree SelectorsOneHot PlacementOK
PROPERTIES Contract PrepareInert
VIEW View
CHECK_DEADLOCK FALSE
