SPECIFICATION Spec
CONSTANTS
  Depth = 3
  PrintHist = FALSE
  CopyIn = FALSE
  CopyOut = TRUE
  InPlace = TRUE
INVARIANTS CallerIntact
