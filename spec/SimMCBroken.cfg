SPECIFICATION Spec
CONSTANTS Ls <- LGrid
 Fs = {0, 100, 5000, 300000}
 Wrong = TRUE
INVARIANTS Solves ClosedV ClosedP Suppressed
CHECK_DEADLOCK FALSE
