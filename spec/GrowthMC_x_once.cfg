SPECIFICATION Spec
CONSTANTS D = 2
 F = 3
 MaxK = 12
 MaxQ = 4
 Variant = "once"
INVARIANTS Linear
CHECK_DEADLOCK FALSE
