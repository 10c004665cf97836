SPECIFICATION Spec
CONSTANTS Mode = "one" NItems = 16 NVals = 6 NClients = 2 MaxPend = 3 MaxMulti = 0 MaxBatch = 0 Depth = 40
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
