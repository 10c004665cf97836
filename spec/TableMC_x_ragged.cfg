SPECIFICATION Spec
CONSTANTS
  Mutant = "ragged"
  Names <- ANames
  Numbers <- ANumbers
  Wrong <- AWrong
  LineEnds <- AEnds
  Widths <- AWidths
  MaxLines = 2
CONSTRAINT Small
INVARIANT RightSoFar
CHECK_DEADLOCK FALSE
