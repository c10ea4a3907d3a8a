SPECIFICATION Spec
CONSTANTS
  Depth = 3
  PrintHist = FALSE
  CopyIn = TRUE
  CopyOut = FALSE
  InPlace = TRUE
INVARIANTS ResultsIntact
