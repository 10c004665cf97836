SPECIFICATION Spec
CONSTANTS D = 2
 F = 3
 MaxK = 12
 MaxQ = 4
 Variant = "both"
INVARIANTS Linear
CHECK_DEADLOCK FALSE
