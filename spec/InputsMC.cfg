SPECIFICATION Spec
CONSTANTS
  Depth = 2
  PrintHist = TRUE
  CopyIn = TRUE
  CopyOut = TRUE
  InPlace = TRUE
INVARIANTS CallerIntact ResultsIntact
