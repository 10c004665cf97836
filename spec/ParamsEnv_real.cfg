SPECIFICATION ESpec
CONSTANTS Real = TRUE
CONSTRAINT Printed
CHECK_DEADLOCK FALSE
