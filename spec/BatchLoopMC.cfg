SPECIFICATION Spec
CONSTANTS Items = {1, 2} Cells <- TheCells H = 2 Place <- ThePlace Val = {0, 1}
INVARIANT Contract
CHECK_DEADLOCK FALSE
