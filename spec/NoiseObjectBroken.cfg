CONSTANTS
  Depth = 3
  PrintHist = FALSE
  ResetOnSlope = FALSE
  NChan = 2
SPECIFICATION Spec
INVARIANTS Fresh SplitNeedsCsd OneChannel
