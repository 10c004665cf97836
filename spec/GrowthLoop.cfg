SPECIFICATION Spec
CONSTANTS D = 1
 F = 2
 Sizes = {0, 1, 2, 3}
CONSTRAINT Small
INVARIANT Linear
CHECK_DEADLOCK FALSE
