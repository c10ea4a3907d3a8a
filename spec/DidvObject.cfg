SPECIFICATION Spec
CONSTANTS Depth = 3
 PrintHist = TRUE
 FromStart = TRUE
 Flip = TRUE
INVARIANTS OnceFlipped Available Distinct
PROPERTY Keeps
CHECK_DEADLOCK FALSE
