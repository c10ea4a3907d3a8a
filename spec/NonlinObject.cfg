SPECIFICATION Spec
CONSTANTS Depth = 2
 PrintHist = TRUE
 Own = TRUE
INVARIANTS OwnArguments RiseKnown
CHECK_DEADLOCK FALSE
