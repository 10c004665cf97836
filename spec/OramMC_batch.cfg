SPECIFICATION Spec
CONSTANTS Rows = 2 Cols = 2 H = 2 Tmod = 3 Vals = 2 Ids = {1} Modes = {"batch"} FixTab = FALSE MaxBatch = 2
INVARIANTS ReplicasAgree SelectorsOneHot PlacementOK
PROPERTIES Contract PrepareInert
VIEW View
CHECK_DEADLOCK FALSE
