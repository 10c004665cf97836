SPECIFICATION ESpec
CONSTANTS
  Mutant = "none"
  Names <- NoSet
  Numbers <- NoSet
  Wrong <- NoSet
  LineEnds <- NoSet
  Widths <- EWidths
  Most = 40
CONSTRAINT Printed
INVARIANT RightSoFar
CHECK_DEADLOCK FALSE
