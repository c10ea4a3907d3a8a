SPECIFICATION Spec
CONSTANTS N = 5
 Y = 3
 DropLast = FALSE
INVARIANTS Straight Longest Agree Found
PROPERTY Ends
CHECK_DEADLOCK FALSE
