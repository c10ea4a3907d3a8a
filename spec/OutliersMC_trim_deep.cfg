CONSTANTS N = 8 K = 6 Algo = "trim"
SPECIFICATION Spec
INVARIANTS ClipKeepsTwo ClipConsistent TrimShrinks TrimReached UnitFree
PROPERTY Terminates
