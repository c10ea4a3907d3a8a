SPECIFICATION Spec
CONSTANTS
  Depth = 3
  PrintHist = TRUE
  CopyIn = TRUE
  CopyOut = FALSE
  InPlace = FALSE
INVARIANTS CallerIntact ResultsIntact
