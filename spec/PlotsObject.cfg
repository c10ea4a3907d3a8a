CONSTANTS Depth = 2
 PrintHist = TRUE
 Fresh = TRUE
SPECIFICATION Spec
INVARIANT OneOwner
INVARIANT Open
