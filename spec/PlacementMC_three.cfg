SPECIFICATION Spec
CONSTANTS Rows = 2
 Cols = 3
 H = 3
 Dom = 2
 Variant = "ok"
INVARIANTS Valid AsGreedy RoomEnough
CHECK_DEADLOCK FALSE
