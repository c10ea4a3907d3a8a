CONSTANTS Depth = 3
 PrintHist = TRUE
 Fresh = TRUE
SPECIFICATION Spec
INVARIANT OneOwner
INVARIANT Open
