CONSTANTS
  Depth = 3
  PrintHist = TRUE
  ResetOnSlope = TRUE
  NChan = 2
SPECIFICATION Spec
INVARIANTS Fresh SplitNeedsCsd OneChannel
