SPECIFICATION Spec
CONSTANTS Rows = 4
 Cols = 2
 H = 2
 Dom = 4
 Variant = "ok"
INVARIANTS Valid AsGreedy RoomEnough
CHECK_DEADLOCK FALSE
