SPECIFICATION Spec
CONSTANTS N = 5
 Y = 2
 DropLast = TRUE
INVARIANTS Straight Longest Agree Found
PROPERTY Ends
CHECK_DEADLOCK FALSE
