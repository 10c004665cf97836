SPECIFICATION Spec
CONSTANTS Rows = 1 Cols = 4 H = 1 Tmod = 3 Vals = 2 Ids = {1} Modes = {"one"} FixTab = FALSE MaxBatch = 2
CONSTANTS EncBits <- LowFirst
INVARIANTS ReplicasAgree SelectorsOneHot PlacementOK
PROPERTIES Contract PrepareInert
VIEW View
CHECK_DEADLOCK FALSE
