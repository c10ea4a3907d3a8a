SPECIFICATION Spec
CONSTANTS Depth = 3
 PrintHist = FALSE
 FromStart = FALSE
 Flip = TRUE
INVARIANTS OnceFlipped Available Distinct
PROPERTY Keeps
CHECK_DEADLOCK FALSE
