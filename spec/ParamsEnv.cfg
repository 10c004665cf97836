SPECIFICATION ESpec
CONSTANTS Real = FALSE
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
