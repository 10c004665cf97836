SPECIFICATION Spec
CONSTANTS Rows = 3
 Cols = 2
 H = 2
 Dom = 3
 Variant = "ok"
INVARIANTS Valid AsGreedy RoomEnough
CHECK_DEADLOCK FALSE
