SPECIFICATION Spec
CONSTANTS N = 6
 Y = 4
 DropLast = FALSE
INVARIANTS Straight Longest Agree Found
PROPERTY Ends
CHECK_DEADLOCK FALSE
