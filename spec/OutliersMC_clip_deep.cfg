CONSTANTS N = 8 K = 6 Algo = "clip"
SPECIFICATION Spec
INVARIANTS ClipKeepsTwo ClipConsistent TrimShrinks TrimReached UnitFree
PROPERTY Terminates
