SPECIFICATION Spec
CONSTANT Wrong = FALSE
INVARIANTS NoJump Height Area Derivatives
CHECK_DEADLOCK FALSE
