SPECIFICATION Spec
CONSTANTS Depth = 4
 PrintHist = TRUE
 FromStart = TRUE
 Flip = TRUE
INVARIANTS OnceFlipped Available Distinct
PROPERTY Keeps
CHECK_DEADLOCK FALSE
