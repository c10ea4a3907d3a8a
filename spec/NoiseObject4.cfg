CONSTANTS
  Depth = 4
  PrintHist = TRUE
  ResetOnSlope = TRUE
  NChan = 2
SPECIFICATION Spec
INVARIANTS Fresh SplitNeedsCsd OneChannel
