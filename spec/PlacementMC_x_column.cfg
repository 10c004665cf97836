SPECIFICATION Spec
CONSTANTS Rows = 3
 Cols = 2
 H = 2
 Dom = 3
 Variant = "column"
INVARIANTS Valid AsGreedy RoomEnough
CHECK_DEADLOCK FALSE
