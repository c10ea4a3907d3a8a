SPECIFICATION Spec
CONSTANT Wrong = TRUE
INVARIANTS NoJump Height Area Derivatives
CHECK_DEADLOCK FALSE
