CONSTANTS N = 6 K = 5 Algo = "trim"
SPECIFICATION Spec
INVARIANTS ClipKeepsTwo ClipConsistent TrimShrinks TrimReached UnitFree
PROPERTY Terminates
