SPECIFICATION Spec
CONSTANTS Depth = 2
 PrintHist = FALSE
 Own = FALSE
INVARIANTS OwnArguments RiseKnown
CHECK_DEADLOCK FALSE
