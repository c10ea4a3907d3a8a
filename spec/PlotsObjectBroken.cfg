CONSTANTS Depth = 3
 PrintHist = FALSE
 Fresh = FALSE
SPECIFICATION Spec
INVARIANT OneOwner
INVARIANT Open
