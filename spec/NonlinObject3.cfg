SPECIFICATION Spec
CONSTANTS Depth = 3
 PrintHist = TRUE
 Own = TRUE
INVARIANTS OwnArguments RiseKnown
CHECK_DEADLOCK FALSE
