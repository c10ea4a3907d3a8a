CONSTANTS
  Depth = 3
  PrintHist = TRUE
  ResetOnSlope = TRUE
  NChan = 1
SPECIFICATION Spec
INVARIANTS Fresh SplitNeedsCsd OneChannel
