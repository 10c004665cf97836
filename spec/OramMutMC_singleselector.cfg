SPECIFICATION Spec
CONSTANTS Rows = 1 Cols = 2 H = 1 Tmod = 3 Vals = 2 Ids = {1,2} Modes = {"multi"} FixTab = FALSE MaxBatch = 2
CONSTANTS MultiStep <- SingleSelector
INVARIANTS ReplicasAgree SelectorsOneHot PlacementOK
PROPERTIES Contract PrepareInert
VIEW View
CHECK_DEADLOCK FALSE
